"""A small abstract interpreter over Python syntax trees.

States are abstract environments (variable -> abstract value) plus a mapping of *facts*
(abstract heap, typestate, branch assumptions).  The interpreter computes, by a syntax-directed
fixpoint over the powerset of such states, every abstract state that can reach a program point;
loops are iterated until no new abstract state appears.  Calls to functions of the analysed
package are analysed in the context of the call (bounded inlining), so extracting a helper or
moving statements into a nested function does not change what is seen.  Exceptional control flow
(raise, try/except/else/finally, with) is followed.  No constraint solver is involved: values
come from the finite domain a check supplies, branch refinement is by table lookup.
"""
from __future__ import annotations
import ast
import builtins
from typing import Any, Dict, List, Optional, Tuple, Callable, Set

from .live import Liveness
from .src import Index, Module, Func, Class, FUNC, AnalysisError, dotted, unparse

TOP = ('top',)
NONE = ('const', None)
TRUE = ('const', True)
FALSE = ('const', False)


def const(v) -> tuple:
    try:
        hash(v)
    except TypeError:
        return TOP
    if isinstance(v, bool) or v is None:
        return ('const', v)
    return ('const', v, type(v).__name__)


def is_const(v) -> bool:
    return v[0] == 'const'


def inst(c: Class, tag='self') -> tuple:
    return ('inst', c, tag)


def mentions(val, term) -> bool:
    if val == term:
        return True
    if isinstance(val, tuple):
        for x in val:
            if isinstance(x, tuple) and mentions(x, term):
                return True
    return False


def replace_term(val, term, new):
    if val == term:
        return new
    if isinstance(val, tuple) and val and mentions(val, term):
        return tuple(replace_term(x, term, new) if isinstance(x, tuple) else x for x in val)
    return val


def subterms(val, acc: set):
    if isinstance(val, tuple):
        if val in acc:
            return acc
        acc.add(val)
        for x in val:
            if isinstance(x, tuple):
                subterms(x, acc)
    return acc


def drop_dead_facts(st, kinds=('truth', 'none', 'cmp', 'isinst', 'lo', 'mtpos')):
    """drops branch facts about terms nothing refers to any more (own frame's view; callers' terms are
    kept because they do not stem from the current call path)"""
    alive: set = set()
    for v in st.env.values():
        subterms(v, alive)
    for k, v in st.facts.items():
        if not (isinstance(k, tuple) and k[0] in kinds):
            subterms(k, alive)
            subterms(v, alive)
    drop = [k for k in st.facts if isinstance(k, tuple) and k[0] in kinds
            and any(isinstance(t, tuple) and t not in alive and t[0] not in ('attr', 'inst', 'const')
                    for t in k[1:])]
    return st.unfact(*drop) if drop else st


def depth(val) -> int:
    if not isinstance(val, tuple):
        return 0
    return 1 + max((depth(x) for x in val), default=0)


class State:
    __slots__ = ('env', 'facts', '_key')

    def __init__(self, env: dict, facts: dict):
        self.env, self.facts, self._key = env, facts, None

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.env.items()), frozenset(self.facts.items()))
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def set(self, name, val) -> 'State':
        if self.env.get(name) == val:
            return self
        e = dict(self.env)
        e[name] = val
        return State(e, self.facts)

    def unset(self, name) -> 'State':
        if name not in self.env:
            return self
        e = dict(self.env)
        del e[name]
        return State(e, self.facts)

    def fact(self, k, v) -> 'State':
        if k in self.facts and self.facts[k] == v:
            return self
        f = dict(self.facts)
        f[k] = v
        return State(self.env, f)

    def unfact(self, *ks) -> 'State':
        if not any(k in self.facts for k in ks):
            return self
        f = {k: v for k, v in self.facts.items() if k not in ks}
        return State(self.env, f)

    def get(self, k, default=None):
        return self.facts.get(k, default)

    def with_env(self, env) -> 'State':
        return State(env, self.facts)


class Outcome:
    """Sets of states by kind of completion."""
    __slots__ = ('next', 'brk', 'cont', 'ret')

    def __init__(self, nxt=()):
        self.next: Dict[State, None] = dict.fromkeys(nxt)
        self.brk: Dict[State, None] = {}
        self.cont: Dict[State, None] = {}
        self.ret: Dict[Tuple[State, tuple], ast.AST] = {}

    def absorb(self, o: 'Outcome', with_next=True):
        if with_next:
            self.next.update(o.next)
        self.brk.update(o.brk)
        self.cont.update(o.cont)
        self.ret.update(o.ret)


EXC_PARENTS = {}
for _n in dir(builtins):
    _o = getattr(builtins, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        EXC_PARENTS[_n] = [k.__name__ for k in _o.__mro__]


class Domain:
    """Hooks; a check overrides what it needs."""
    max_depth = 4
    max_states = 3000
    record_conditions = True
    use_liveness = True

    def __init__(self, ix: Index):
        self.ix = ix

    # results: list[(state, val)]
    def name(self, it, st: State, node: ast.Name) -> Optional[tuple]:
        return None

    def attr(self, it, st: State, base: tuple, node: ast.Attribute) -> Optional[List]:
        return None

    def subscript(self, it, st, base, idx, node) -> Optional[List]:
        return None

    def binop(self, it, st, op: str, l, r, node) -> Optional[List]:
        return None

    def unop(self, it, st, op: str, v, node) -> Optional[List]:
        return None

    def compare(self, it, st, op: str, l, r, node) -> Optional[List]:
        """-> list[(state, bool)]"""
        return None

    def truth(self, it, st, val) -> Optional[bool]:
        return None

    def assume(self, it, st, val, truth: bool) -> Optional[List[State]]:
        return None

    def call(self, it, st, node: ast.Call, fval, args: List, kwargs: Dict) -> Optional[List]:
        return None

    def call_result(self, it, st, node, fval, args, kwargs) -> Optional[List]:
        """value of a call that is not inlined"""
        return None

    def may_raise(self, it, st, node, fval) -> List[str]:
        return []

    def inline(self, it, func: Func, node) -> bool:
        return True

    def assign_name(self, it, st, name: str, val, node) -> Optional[List[State]]:
        return None

    def assign_attr(self, it, st, base, attr: str, val, node) -> Optional[List[State]]:
        return None

    def assign_sub(self, it, st, base, idx, val, node) -> Optional[List[State]]:
        return None

    def delete(self, it, st, node) -> Optional[List[State]]:
        return None

    def iterate(self, it, st, itval, node) -> Optional[List]:
        """-> list of (state, element value) for one arbitrary iteration"""
        return None

    def exhausted(self, it, st, itval, node) -> Optional[List[State]]:
        return None

    def enter(self, it, st, val, node) -> Optional[List]:
        return None

    def exit(self, it, st, val, node, exc: bool) -> Optional[List[State]]:
        return None

    def on_return(self, it, st, val, node, func: Func):
        pass

    def on_yield(self, it, st, val, node):
        pass

    def on_await(self, it, st, val, node) -> Optional[List]:
        return None

    def on_loop_head(self, it, st, node) -> Optional[State]:
        return None

    def on_back_edge(self, it, st, node) -> Optional[State]:
        return None

    def on_loop_exit(self, it, st, node) -> Optional[State]:
        return None

    def comprehension(self, it, st, node) -> Optional[List]:
        return None

    def literal(self, it, st, node, vals) -> Optional[tuple]:
        return None

    def joined(self, it, st, node, parts) -> Optional[tuple]:
        return None

    def keep_fact(self, key) -> bool:
        """facts that survive a collapse of too many states"""
        return not (isinstance(key, tuple) and key and key[0] in ('truth', 'none', 'cmp', 'isinst'))

    def mutate(self, it, st, node) -> None:
        pass


class Frame:
    __slots__ = ('func', 'module', 'cls', 'selfcls', 'closures', 'parent', 'selfval', 'conds', 'path', 'outer_names')

    def __init__(self, func, module, cls, selfval=None, parent=None, path=''):
        self.func, self.module, self.cls = func, module, cls
        self.selfval = selfval
        self.path = path
        self.outer_names = frozenset()
        self.closures: Dict[str, Func] = {}
        self.parent = parent
        self.conds: Dict[str, int] = {}


class Interp:
    def __init__(self, ix: Index, dom: Domain):
        self.ix, self.dom = ix, dom
        self.frames: List[Frame] = []
        self.sinks: List[Dict[Tuple[State, str], ast.AST]] = []
        self.steps = 0
        self.max_steps = 400000
        self.stats = {'functions': set(), 'inlined': 0, 'returns': 0, 'loops': 0, 'calls': 0}
        self._funcs_cache: Dict[int, Func] = {}
        self._exc_ctx: List[str] = []
        self._callnode = None
        self._outer_names = frozenset()

    @property
    def frame(self) -> Frame:
        return self.frames[-1]

    # ---- running functions -----------------------------------------------------

    def run(self, func: Func, env: Dict[str, tuple], facts: Dict = None, selfval=None) \
            -> Tuple[Dict[Tuple[State, tuple], ast.AST], Dict[Tuple[State, str], ast.AST]]:
        """Analyses a function from an initial state.  -> (returns, raises)"""
        st = State(dict(env), dict(facts or {}))
        return self._run(func, st, selfval)

    def _run(self, func: Func, st: State, selfval, parent: Optional[Frame] = None):
        path = ''
        if self.frames:
            cn = self._callnode
            path = self.frames[-1].path + f"/{getattr(cn, 'lineno', 0)}:{getattr(cn, 'col_offset', 0)}"
        fr = Frame(func, func.module, func.cls, selfval, parent, path)
        fr.conds = self._count_conditions(func)
        fr.outer_names, self._outer_names = self._outer_names, frozenset()
        self.frames.append(fr)
        self.sinks.append({})
        self.stats['functions'].add(func.qual)
        try:
            node = func.node
            if isinstance(node, ast.Lambda):
                out = Outcome()
                for s, v in self.eval(node.body, st):
                    out.ret[(s, v)] = node
            else:
                out = self.block(node.body, [st])
                for s in out.next:
                    out.ret.setdefault((s, NONE), node)
            for (s, v), n in out.ret.items():
                self.stats['returns'] += 1
                self.dom.on_return(self, s, v, n, func)
            return out.ret, self.sinks[-1]
        finally:
            self.sinks.pop()
            self.frames.pop()

    def _count_conditions(self, func: Func) -> Dict[str, int]:
        c = getattr(self, '_cc', None)
        if c is None:
            c = self._cc = {}
        k = id(func.node)
        if k not in c:
            d: Dict[str, int] = {}
            for n in ast.walk(func.node):
                tests = []
                if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                    tests = [n.test]
                elif isinstance(n, ast.comprehension):
                    tests = n.ifs
                elif isinstance(n, ast.BoolOp):
                    tests = n.values
                for t in tests:
                    for m in ast.walk(t):
                        if isinstance(m, (ast.Name, ast.Attribute, ast.Subscript)):
                            u = unparse(m, 200)
                            d[u] = d.get(u, 0) + 1
            c[k] = d
        return c[k]

    def _worth(self, *nodes) -> bool:
        rc = self.dom.record_conditions
        if not rc:
            return False
        if rc == 'names':
            nodes = [n for n in nodes if isinstance(n, ast.Name)]
        conds = self.frame.conds
        for n in nodes:
            if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
                if conds.get(unparse(n, 200), 0) >= 2:
                    return True
        return False

    def emit_raise(self, st: State, exc: str, node):
        if self.sinks:
            self.sinks[-1].setdefault((st, exc), node)

    # ---- blocks / statements -----------------------------------------------------

    def block(self, stmts: List[ast.stmt], states) -> Outcome:
        out = Outcome()
        cur: Dict[State, None] = dict.fromkeys(states)
        for s in stmts:
            if not cur:
                break
            nxt: Dict[State, None] = {}
            for st in cur:
                o = self.stmt(s, st)
                nxt.update(o.next)
                out.absorb(o, with_next=False)
            cur = self.limit(self.prune(nxt, s))
        out.next = cur
        return out

    def liveness(self, func) -> Liveness:
        c = getattr(self, '_lv', None)
        if c is None:
            c = self._lv = {}
        k = id(func.node)
        if k not in c:
            c[k] = Liveness(func.node)
        return c[k]

    def prune(self, states, s, head=False):
        """removes dead local names"""
        if not self.dom.use_liveness:
            return states
        lv = self.liveness(self.frame.func)
        live = (lv.head if head else lv.out).get(id(s))
        if live is None:
            return states
        res = {}
        for st in states:
            dead = [n for n in st.env if n not in live and n not in lv.always and n not in self.frame.outer_names]
            if dead:
                env = {k: v for k, v in st.env.items() if k not in dead}
                st = State(env, st.facts)
            res[st] = None
        return res

    def limit(self, states: Dict[State, None]) -> Dict[State, None]:
        if len(states) <= 64:
            return states
        if len(states) > 64:
            keep = self.dom.keep_fact
            if len(states) > 400:
                states = dict.fromkeys(
                    State(s.env, {k: v for k, v in s.facts.items() if keep(k)}) for s in states)
        if len(states) > self.dom.max_states:
            raise AnalysisError(f'state bound exceeded in {self.frame.func.where}')
        return states

    def stmt(self, s: ast.stmt, st: State) -> Outcome:
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError(f'step bound exceeded in {self.frame.func.where}')
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f'statement kind {type(s).__name__} not handled '
                                f'({self.frame.module.rel}:{s.lineno})')
        return m(s, st)

    def st_Pass(self, s, st):
        return Outcome([st])

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, s, st):
        for a in s.names:
            st = st.set(a.asname or a.name.split('.')[0], ('ext', a.name if a.asname else a.name.split('.')[0]))
        return Outcome([st])

    def st_ImportFrom(self, s, st):
        for a in s.names:
            mod = s.module or ''
            val = ('ext', mod + '.' + a.name)
            if mod.startswith('DHParser'):
                m = self.ix.modules.get(mod.split('.')[-1])
                if m is not None:
                    v = self.global_value(m, a.name)
                    if v is not None:
                        val = v
            st = st.set(a.asname or a.name, val)
        return Outcome([st])

    def st_Expr(self, s, st):
        return Outcome([x for x, _ in self.eval(s.value, st)])

    def st_FunctionDef(self, s, st):
        f = self._funcs_cache.get(id(s))
        if f is None:
            f = Func(s, self.frame.module, self.frame.cls, self.frame.func)
            self._funcs_cache[id(s)] = f
        val = ('closure', f, len(self.frames) - 1)
        return Outcome([st.set(s.name, val)])

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s, st):
        return Outcome([st.set(s.name, TOP)])

    def st_Return(self, s, st):
        o = Outcome()
        if s.value is None:
            o.ret[(st, NONE)] = s
        else:
            for x, v in self.eval(s.value, st):
                o.ret[(x, v)] = s
        return o

    def st_Break(self, s, st):
        o = Outcome()
        o.brk[st] = None
        return o

    def st_Continue(self, s, st):
        o = Outcome()
        o.cont[st] = None
        return o

    def st_Raise(self, s, st):
        if s.exc is None:
            exc = self._exc_ctx[-1] if self._exc_ctx else '*'
            self.emit_raise(st, exc, s)
            return Outcome()
        for x, v in self.eval(s.exc, st):
            self.emit_raise(x, self.exc_name(s.exc, v), s)
        return Outcome()

    def exc_name(self, e: ast.expr, v) -> str:
        if isinstance(e, ast.Call):
            e = e.func
        if v[0] == 'exc':
            return v[1]
        d = dotted(e)
        if d:
            n = d.split('.')[-1]
            if n[:1].isupper():
                return n
        return '*'

    def st_Assert(self, s, st):
        return Outcome([x for x, t in self.test(s.test, st) if t])

    def st_Assign(self, s, st):
        res: Dict[State, None] = {}
        for x, v in self.eval(s.value, st):
            cur = [x]
            for t in s.targets:
                cur = [y for c in cur for y in self.assign(t, v, c, s)]
            res.update(dict.fromkeys(cur))
        return Outcome(res)

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return Outcome([st])
        res = {}
        for x, v in self.eval(s.value, st):
            res.update(dict.fromkeys(self.assign(s.target, v, x, s)))
        return Outcome(res)

    def st_AugAssign(self, s, st):
        res = {}
        load = ast.copy_location(self._as_load(s.target), s.target)
        for x, lv in self.eval(load, st):
            for y, rv in self.eval(s.value, x):
                for z, v in self.binop(y, type(s.op).__name__, lv, rv, s):
                    res.update(dict.fromkeys(self.assign(s.target, v, z, s)))
        return Outcome(res)

    def _as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())

    def assign(self, t: ast.expr, v, st: State, node) -> List[State]:
        if isinstance(t, ast.Name):
            r = self.dom.assign_name(self, st, t.id, v, node)
            if r is not None:
                return r
            return [st.set(t.id, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                vals = [TOP] * n
                st, term = self.fresh(st, node, 'unpack')
            elif v[0] == 'tuple' and len(v[1]) == n:
                vals = list(v[1])
            else:
                vals = []
                for i, e in enumerate(t.elts):
                    r = self.dom.subscript(self, st, v, const(i), None)
                    if r:
                        vals.append(r[0][1])
                        st = r[0][0]
                    elif v is TOP or depth(v) > 4:
                        vals.append(TOP)
                    else:
                        vals.append(('item', v, i))
            cur = [st]
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                cur = [y for c in cur for y in self.assign(e, x, c, node)]
            return cur
        if isinstance(t, ast.Attribute):
            res = []
            for x, b in self.eval(t.value, st):
                r = self.dom.assign_attr(self, x, b, t.attr, v, node)
                if r is None:
                    r = self.default_assign_attr(x, b, t.attr, v, node)
                res.extend(r)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for x, b in self.eval(t.value, st):
                for y, i in self.eval(t.slice, x):
                    r = self.dom.assign_sub(self, y, b, i, v, node)
                    res.extend([y] if r is None else r)
            return res
        if isinstance(t, ast.Starred):
            return self.assign(t.value, TOP, st, node)
        return [st]

    def default_assign_attr(self, st, b, attr, v, node) -> List[State]:
        if b[0] == 'inst':
            f = self.ix.lookup_setter(b[1], attr)
            if f is not None:
                r = self.inline_call(f, st, node, [b, v], {}, b)
                if r is not None:
                    return [x for x, _ in r]
        if b == TOP:
            return [st]
        term = ('attr', b, attr)
        st = self.forget(st, term)
        if depth(v) < 7:
            st = st.fact(term, v)
        return [st]

    def st_Delete(self, s, st):
        r = self.dom.delete(self, st, s)
        if r is not None:
            return Outcome(r)
        for t in s.targets:
            if isinstance(t, ast.Name):
                st = st.unset(t.id)
            elif isinstance(t, ast.Subscript):
                for x, _ in self.eval(t.value, st):
                    st = x
                    break
        return Outcome([st])

    def st_If(self, s, st):
        o = Outcome()
        t = {}
        f = {}
        for x, b in self.test(s.test, st):
            (t if b else f)[x] = None
        if t:
            o.absorb(self.block(s.body, t))
        if f:
            if s.orelse:
                o.absorb(self.block(s.orelse, f))
            else:
                o.next.update(f)
        return o

    def st_While(self, s, st):
        self.stats['loops'] += 1
        o = Outcome()
        seen: Dict[State, None] = {}
        st = next(iter(self.prune([st], s, True)))
        h = self.dom.on_loop_head(self, st, s)
        work = [h if h is not None else st]
        exits: Dict[State, None] = {}
        brks: Dict[State, None] = {}
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen[x] = None
            if len(seen) > 400:
                x2 = self.widen(x)
                if x2 in seen:
                    continue
                seen[x2] = None
                x = x2
                if len(seen) > self.dom.max_states:
                    raise AnalysisError(f'loop bound exceeded {self.frame.module.rel}:{s.lineno}')
            for y, b in self.test(s.test, x):
                if b:
                    ob = self.block(s.body, [y])
                    o.ret.update(ob.ret)
                    brks.update(ob.brk)
                    for z in self.prune(list(ob.next) + list(ob.cont), s, True):
                        z2 = self.dom.on_back_edge(self, z, s)
                        work.append(z if z2 is None else z2)
                else:
                    exits[y] = None
        exits = self._loop_exit(exits, s)
        if s.orelse and exits:
            oe = self.block(s.orelse, exits)
            o.absorb(oe)
        else:
            o.next.update(exits)
        o.next.update(self._loop_exit(brks, s))
        return o

    def _loop_exit(self, states, s):
        res = {}
        for x in states:
            y = self.dom.on_loop_exit(self, x, s)
            res[x if y is None else y] = None
        return res

    def widen(self, st: State) -> State:
        return State(st.env, {k: v for k, v in st.facts.items() if self.dom.keep_fact(k)})

    def st_For(self, s, st):
        self.stats['loops'] += 1
        o = Outcome()
        for x0, itv in self.eval(s.iter, st):
            if itv[0] == 'tuple' and len(itv[1]) <= 8 and isinstance(s.iter, (ast.Tuple, ast.List)):
                cur = {x0: None}
                brks = {}
                for v in itv[1]:
                    nxt = {}
                    for c in cur:
                        for y in self.assign(s.target, v, c, s):
                            ob = self.block(s.body, [y])
                            o.ret.update(ob.ret)
                            brks.update(ob.brk)
                            nxt.update(ob.next)
                            nxt.update(ob.cont)
                    cur = self.limit(nxt)
                if s.orelse and cur:
                    o.absorb(self.block(s.orelse, cur))
                else:
                    o.next.update(cur)
                o.next.update(brks)
                continue
            seen: Dict[State, None] = {}
            x0 = next(iter(self.prune([x0], s, True)))
            h = self.dom.on_loop_head(self, x0, s)
            work = [h if h is not None else x0]
            exits, brks = {}, {}
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen[x] = None
                if len(seen) > 400:
                    x2 = self.widen(x)
                    if x2 in seen:
                        continue
                    seen[x2] = None
                    x = x2
                    if len(seen) > self.dom.max_states:
                        raise AnalysisError(f'loop bound exceeded {self.frame.module.rel}:{s.lineno}')
                ex = self.dom.exhausted(self, x, itv, s)
                if ex is None:
                    ex = [x]
                exits.update(dict.fromkeys(ex))
                for y, ev in self.iterate(x, itv, s):
                    for z in self.assign(s.target, ev, y, s):
                        ob = self.block(s.body, [z])
                        o.ret.update(ob.ret)
                        brks.update(ob.brk)
                        for w in self.prune(list(ob.next) + list(ob.cont), s, True):
                            w2 = self.dom.on_back_edge(self, w, s)
                            work.append(w if w2 is None else w2)
            exits = self._loop_exit(exits, s)
            if s.orelse and exits:
                o.absorb(self.block(s.orelse, exits))
            else:
                o.next.update(exits)
            o.next.update(self._loop_exit(brks, s))
        return o

    st_AsyncFor = st_For

    def iterate(self, st, itv, node):
        r = self.dom.iterate(self, st, itv, node)
        if r is not None:
            return r
        if itv[0] == 'tuple' and itv[1]:
            return [(st, v) for v in dict.fromkeys(itv[1])]
        if itv[0] == 'tuple':
            return []
        st, t = self.fresh(st, node, 'elem')
        return [(st, t)]

    def st_With(self, s, st):
        return self._with(s, 0, st)

    st_AsyncWith = st_With

    def _with(self, s, i, st):
        if i == len(s.items):
            return self.block(s.body, [st])
        item = s.items[i]
        o = Outcome()
        for x, v in self.eval(item.context_expr, st):
            r = self.dom.enter(self, x, v, item)
            if r is None:
                x, t = self.fresh(x, item.context_expr, 'with')
                r = [(x, v if v[0] in ('inst',) else t)]
            for y, ev in r:
                ys = [y]
                if item.optional_vars is not None:
                    ys = self.assign(item.optional_vars, ev, y, s)
                for z in ys:
                    self.sinks.append({})
                    try:
                        ob = self._with(s, i + 1, z)
                    finally:
                        raised = self.sinks.pop()
                    for (w, exc), n in raised.items():
                        for u in (self.dom.exit(self, w, v, item, True) or [w]):
                            self.emit_raise(u, exc, n)
                    for kind in ('next', 'brk', 'cont'):
                        for w in getattr(ob, kind):
                            for u in (self.dom.exit(self, w, v, item, False) or [w]):
                                getattr(o, kind)[u] = None
                    for (w, rv), n in ob.ret.items():
                        for u in (self.dom.exit(self, w, v, item, False) or [w]):
                            o.ret[(u, rv)] = n
        return o

    def handler_names(self, h: ast.ExceptHandler) -> List[str]:
        if h.type is None:
            return ['BaseException']
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [(dotted(e) or '?').split('.')[-1] for e in elts]

    def catches(self, names: List[str], exc: str) -> Optional[bool]:
        """True: surely, False: surely not, None: perhaps"""
        if 'BaseException' in names:
            return True
        if exc == '*':
            return True if 'Exception' in names else None
        parents = self.exc_parents(exc)
        if any(n in parents for n in names):
            return True
        # handler for a subclass of exc: possible
        for n in names:
            if exc in self.exc_parents(n):
                return None
        return False

    def exc_parents(self, exc: str) -> List[str]:
        if exc in EXC_PARENTS:
            return EXC_PARENTS[exc]
        cs = self.ix.classes.get(exc)
        if cs:
            res = []
            for k in self.ix.mro(cs[0]):
                res.append(k.name)
                for b in k.bases:
                    res.extend(EXC_PARENTS.get(b, [b]))
            return res + ['Exception', 'BaseException']
        return [exc, 'Exception', 'BaseException']

    def st_Try(self, s, st):
        o = Outcome()
        self.sinks.append({})
        try:
            body = self.block(s.body, [st])
        finally:
            raised = self.sinks.pop()
        self.sinks.append({})       # exceptions from handlers / else
        try:
            res = Outcome()
            res.absorb(body, with_next=False)
            if s.orelse:
                if body.next:
                    res.absorb(self.block(s.orelse, body.next))
            else:
                res.next.update(body.next)
            for (x, exc), n in raised.items():
                escaped = True
                for h in s.handlers:
                    c = self.catches(self.handler_names(h), exc)
                    if c is False:
                        continue
                    y = x
                    if h.name:
                        y = y.set(h.name, ('exc', exc))
                    self._exc_ctx.append(exc)
                    try:
                        oh = self.block(h.body, [y])
                    finally:
                        self._exc_ctx.pop()
                    if h.name:
                        for kind in ('next', 'brk', 'cont'):
                            setattr(oh, kind, dict.fromkeys(z.unset(h.name) for z in getattr(oh, kind)))
                    res.absorb(oh)
                    if c is True:
                        escaped = False
                        break
                if escaped:
                    self.emit_raise(x, exc, n)
        finally:
            raised2 = self.sinks.pop()
        if not s.finalbody:
            o.absorb(res)
            for (x, exc), n in raised2.items():
                self.emit_raise(x, exc, n)
            return o
        for x in res.next:
            o.absorb(self.block(s.finalbody, [x]))
        for x in res.brk:
            of = self.block(s.finalbody, [x])
            o.absorb(of, with_next=False)
            o.brk.update(of.next)
        for x in res.cont:
            of = self.block(s.finalbody, [x])
            o.absorb(of, with_next=False)
            o.cont.update(of.next)
        for (x, v), n in res.ret.items():
            of = self.block(s.finalbody, [x])
            o.absorb(of, with_next=False)
            for y in of.next:
                o.ret[(y, v)] = n
        for (x, exc), n in raised2.items():
            of = self.block(s.finalbody, [x])
            o.absorb(of, with_next=False)
            for y in of.next:
                self.emit_raise(y, exc, n)
        return o

    # ---- expressions -----------------------------------------------------------

    def eval(self, e: ast.expr, st: State) -> List[Tuple[State, tuple]]:
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            return [(st, TOP)]
        return m(e, st)

    def eval_list(self, es, st) -> List[Tuple[State, List[tuple]]]:
        cur = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in cur:
                for y, v in self.eval(e, x):
                    nxt.append((y, vs + [v]))
            cur = nxt
        return cur

    def ex_Constant(self, e, st):
        return [(st, const(e.value))]

    def ex_Name(self, e, st):
        v = self.dom.name(self, st, e)
        if v is not None:
            return [(st, v)]
        if e.id in st.env:
            return [(st, st.env[e.id])]
        v = self.global_value(self.frame.module, e.id)
        return [(st, v if v is not None else ('name', e.id))]

    def global_value(self, m: Module, name: str):
        f = self.ix.resolve_func(m, name)
        if f is not None:
            return ('func', f)
        c = self.ix.find_class(m, name)
        if c is not None:
            return ('class', c)
        g = self.ix.resolve_global(m, name)
        if g is not None:
            mod, ex = g
            if isinstance(ex, ast.Constant):
                return const(ex.value)
            return ('glob', mod.name, name)
        if name in m.imports:
            mod, orig = m.imports[name]
            return ('ext', mod + ('.' + orig if orig else ''))
        if hasattr(builtins, name):
            return ('builtin', name)
        return None

    def ex_Attribute(self, e, st):
        res = []
        for x, b in self.eval(e.value, st):
            r = self.dom.attr(self, x, b, e)
            if r is None:
                r = self.default_attr(x, b, e.attr, e)
            res.extend(r)
        return res

    def default_attr(self, st, b, attr, node):
        if b[0] == 'ext':
            return [(st, ('ext', b[1] + '.' + attr))]
        if b[0] == 'inst':
            f = self.ix.lookup(b[1], attr)
            term = ('attr', b, attr)
            if term in st.facts:
                return [(st, st.facts[term])]
            if f is not None:
                if f.is_property:
                    r = self.inline_call(f, st, node, [b], {}, b)
                    if r is not None:
                        return r
                    return [(st, term)]
                return [(st, ('bound', f, b))]
            for k in self.ix.mro(b[1]):
                if attr in k.assigns:
                    ex = k.assigns[attr]
                    if isinstance(ex, ast.Constant):
                        return [(st, const(ex.value))]
                    break
            return [(st, term)]
        if b[0] == 'class':
            f = self.ix.lookup(b[1], attr)
            if f is not None:
                return [(st, ('func', f))]
            for k in self.ix.mro(b[1]):
                if attr in k.assigns and isinstance(k.assigns[attr], ast.Constant):
                    return [(st, const(k.assigns[attr].value))]
        term = ('attr', b, attr)
        if term in st.facts:
            return [(st, st.facts[term])]
        if b == TOP or depth(term) > 8:
            return [(st, TOP)]
        return [(st, term)]

    def ex_Subscript(self, e, st):
        res = []
        for x, b in self.eval(e.value, st):
            for y, i in self.eval(e.slice, x):
                r = self.dom.subscript(self, y, b, i, e)
                if r is None:
                    if b[0] == 'tuple' and is_const(i) and isinstance(i[1], int) \
                            and -len(b[1]) <= i[1] < len(b[1]):
                        r = [(y, b[1][i[1]])]
                    elif b != TOP and is_const(i) and depth(b) <= 6:
                        r = [(y, ('item', b, i[1]))]
                    else:
                        r = [(y, TOP)]
                res.extend(r)
        return res

    def ex_Slice(self, e, st):
        parts = [p for p in (e.lower, e.upper, e.step)]
        cur = [(st, [])]
        for p in parts:
            if p is None:
                cur = [(x, vs + [NONE]) for x, vs in cur]
            else:
                cur = [(y, vs + [v]) for x, vs in cur for y, v in self.eval(p, x)]
        return [(x, ('slice', tuple(vs))) for x, vs in cur]

    def ex_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            res = []
            for x, vs in self.eval_list([y.value if isinstance(y, ast.Starred) else y for y in e.elts], st):
                v = self.dom.literal(self, x, e, vs)
                res.append((x, TOP if v is None else v))
            return res
        res = []
        for x, vs in self.eval_list(e.elts, st):
            v = self.dom.literal(self, x, e, vs)
            if v is None:
                v = ('tuple', tuple(vs)) if sum(depth(q) for q in vs) < 60 else TOP
            res.append((x, v))
        return res

    def ex_List(self, e, st):
        res = []
        for x, vs in self.eval_list([y.value if isinstance(y, ast.Starred) else y for y in e.elts], st):
            v = self.dom.literal(self, x, e, vs)
            if v is None:
                x, v = self.fresh(x, e, 'list')
            res.append((x, v))
        return res

    def ex_Set(self, e, st):
        return self.ex_List(e, st)

    def ex_Dict(self, e, st):
        es = [k for k in e.keys if k is not None] + list(e.values)
        res = []
        for x, vs in self.eval_list(es, st):
            v = self.dom.literal(self, x, e, vs)
            if v is None:
                x, v = self.fresh(x, e, 'dict')
            res.append((x, v))
        return res

    def ex_Starred(self, e, st):
        return self.eval(e.value, st)

    def ex_JoinedStr(self, e, st):
        es = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                es.append(p.value)
        res = []
        for x, vs in self.eval_list(es, st):
            v = self.dom.joined(self, x, e, vs)
            if v is None:
                x, v = self.fresh(x, e, 'str')
            res.append((x, v))
        return res

    def ex_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def ex_Lambda(self, e, st):
        f = self._funcs_cache.get(id(e))
        if f is None:
            mod, cls, outer = self.frame.module, self.frame.cls, self.frame.func
            f = Func.__new__(Func)
            f.node, f.module, f.cls, f.outer, f.name = e, mod, cls, outer, '<lambda>'
            f.is_static = f.is_classmethod = f.is_property = f.is_setter = False
            f.locals_ = None
            self._funcs_cache[id(e)] = f
        return [(st, ('closure', f, len(self.frames) - 1))]

    def ex_IfExp(self, e, st):
        res = []
        for x, b in self.test(e.test, st):
            res.extend(self.eval(e.body if b else e.orelse, x))
        return self._dedup(res)

    def ex_NamedExpr(self, e, st):
        res = []
        for x, v in self.eval(e.value, st):
            for y in self.assign(e.target, v, x, e):
                res.append((y, v))
        return res

    def ex_BoolOp(self, e, st):
        # value semantics of and/or
        res = []
        work = [(st, 0)]
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        for i, sub in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for x in cur:
                for y, v in self.eval(sub, x):
                    if last:
                        res.append((y, v))
                        continue
                    for z, t in self.split(y, v, sub):
                        if t == is_and:
                            nxt.append(z)
                        else:
                            if not t and not is_const(v) and v[0] not in ('inst',):
                                res.append((z, v))
                            else:
                                res.append((z, v))
            cur = nxt
        return self._dedup(res)

    def ex_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(x, const(not b)) for x, b in self.test(e.operand, st)]
        res = []
        for x, v in self.eval(e.operand, st):
            r = self.dom.unop(self, x, type(e.op).__name__, v, e)
            if r is None:
                if is_const(v) and isinstance(v[1], (int, float)) and not isinstance(v[1], bool) \
                        and isinstance(e.op, ast.USub):
                    r = [(x, const(-v[1]))]
                else:
                    r = [(x, TOP)]
            res.extend(r)
        return res

    def ex_BinOp(self, e, st):
        res = []
        for x, l in self.eval(e.left, st):
            for y, r in self.eval(e.right, x):
                res.extend(self.binop(y, type(e.op).__name__, l, r, e))
        return res

    def binop(self, st, op, l, r, node):
        q = self.dom.binop(self, st, op, l, r, node)
        if q is not None:
            return q
        if is_const(l) and is_const(r):
            try:
                a, b = l[1], r[1]
                if isinstance(a, (int, str, bytes)) and isinstance(b, (int, str, bytes)):
                    if op == 'Add':
                        v = a + b
                        if not isinstance(v, (str, bytes)) or len(v) < 2000:
                            return [(st, const(v))]
                    if op == 'Sub':
                        return [(st, const(a - b))]
                    if op == 'Mult' and isinstance(a, int) and isinstance(b, int):
                        return [(st, const(a * b))]
            except TypeError:
                pass
        return [(st, TOP)]

    def ex_Compare(self, e, st):
        return [(x, const(b)) for x, b in self.test(e, st)]

    def ex_Await(self, e, st):
        res = []
        for x, v in self.eval(e.value, st):
            r = self.dom.on_await(self, x, v, e)
            res.extend(r if r is not None else [(x, v)])
        return res

    def ex_Yield(self, e, st):
        if e.value is None:
            self.dom.on_yield(self, st, NONE, e)
            return [(st, TOP)]
        res = []
        for x, v in self.eval(e.value, st):
            self.dom.on_yield(self, x, v, e)
            res.append((x, TOP))
        return res

    ex_YieldFrom = ex_Yield

    def _comp(self, e, st, elts):
        r = self.dom.comprehension(self, st, e)
        if r is not None:
            return r
        saved = dict(st.env)
        states = {st: None}
        inner = {st: None}
        for g in e.generators:
            nxt = {}
            for x in inner:
                for y, itv in self.eval(g.iter, x):
                    for z, ev in self.iterate(y, itv, g.iter):
                        for w in self.assign(g.target, ev, z, e):
                            ws = [w]
                            for c in g.ifs:
                                ws = [u for q in ws for u, b in self.test(c, q) if b]
                            nxt.update(dict.fromkeys(ws))
                    nxt_exit = y
                    states[y] = None
            inner = nxt
        outs = dict(states)
        for x in inner:
            for y, _ in self.eval_list(elts, x):
                outs[y] = None
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        res = []
        for x in outs:
            env = {k: v for k, v in x.env.items() if k not in names}
            for n in names:
                if n in saved:
                    env[n] = saved[n]
            x, t = self.fresh(State(env, x.facts), e, 'comp')
            res.append((x, t))
        return self._dedup(res)

    def ex_ListComp(self, e, st):
        return self._comp(e, st, [e.elt])

    ex_SetComp = ex_GeneratorExp = ex_ListComp

    def ex_DictComp(self, e, st):
        return self._comp(e, st, [e.key, e.value])

    def _dedup(self, res):
        return list(dict.fromkeys(res))

    # ---- terms --------------------------------------------------------------------

    def site(self, node) -> tuple:
        s = (self.frame.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
             getattr(node, 'end_lineno', 0), getattr(node, 'end_col_offset', 0))
        return s + (self.frame.path,) if self.frame.path else s

    def fresh(self, st: State, node, kind: str) -> Tuple[State, tuple]:
        t = (kind,) + self.site(node)
        return self.forget(st, t, drop_holders=True), t

    def _scrub(self, v, term):
        if v[0] == 'tuple' and v != term:
            return ('tuple', tuple(self._scrub(x, term) if mentions(x, term) else x for x in v[1]))
        return TOP

    def forget(self, st: State, term, drop_holders=False) -> State:
        env, facts = st.env, st.facts
        ch = False
        if drop_holders:
            for k, v in env.items():
                if mentions(v, term):
                    if not ch:
                        env = dict(env)
                        ch = True
                    env[k] = self._scrub(v, term)
        dead = [k for k in facts if isinstance(k, tuple) and mentions(k, term) and
                not (k == term and not drop_holders)]
        hold = [k for k, v in facts.items() if isinstance(v, tuple) and mentions(v, term)] \
            if drop_holders else []
        if dead or hold:
            facts = dict(facts)
            for k in hold:
                facts[k] = self._scrub(facts[k], term)
            for k in dead:
                facts.pop(k, None)
            ch = True
        return State(env, facts) if ch else st

    # ---- tests ------------------------------------------------------------------------

    def test(self, e: ast.expr, st: State) -> List[Tuple[State, bool]]:
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur, res = [st], []
            for i, sub in enumerate(e.values):
                nxt = []
                for x in cur:
                    for y, b in self.test(sub, x):
                        if b == is_and:
                            nxt.append(y)
                        else:
                            res.append((y, b))
                cur = nxt
            res.extend((x, is_and) for x in cur)
            return self._dedup(res)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.test(e.operand, st)]
        if isinstance(e, ast.Compare):
            return self._compare_chain(e, st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' \
                and len(e.args) == 1 and 'bool' not in st.env:
            return self.test(e.args[0], st)
        res = []
        for x, v in self.eval(e, st):
            res.extend(self.split(x, v, e))
        return self._dedup(res)

    def _compare_chain(self, e: ast.Compare, st):
        res = []
        cur = [(x, v) for x, v in self.eval(e.left, st)]
        left_node = e.left
        for i, (op, rn) in enumerate(zip(e.ops, e.comparators)):
            last = i == len(e.ops) - 1
            nxt = []
            for x, l in cur:
                for y, r in self.eval(rn, x):
                    for z, b in self.compare(y, type(op).__name__, l, r, left_node, rn, e):
                        if not b or last:
                            res.append((z, b))
                        else:
                            nxt.append((z, r))
            cur = nxt
            left_node = rn
        return self._dedup(res)

    def compare(self, st, op, l, r, ln, rn, node):
        q = self.dom.compare(self, st, op, l, r, node)
        if q is not None:
            return q
        neg = {'IsNot': 'Is', 'NotEq': 'Eq', 'NotIn': 'In', 'GtE': 'Lt', 'LtE': 'Gt'}
        flip = op in neg
        base = neg.get(op, op)
        # None tests
        if base in ('Is', 'Eq') and (r == NONE or l == NONE):
            v, n = (l, ln) if r == NONE else (r, rn)
            b = self.none_status(st, v)
            if b is not None:
                return [(st, b != flip)]
            if v != TOP and self._worth(n):
                return [(st.fact(('none', v), True), not flip), (st.fact(('none', v), False), flip)]
            return [(st, not flip), (st, flip)]
        if is_const(l) and is_const(r):
            try:
                a, b = l[1], r[1]
                res = {'Eq': lambda: a == b, 'Is': lambda: a is b or (a == b and type(a) is type(b)),
                       'Lt': lambda: a < b, 'Gt': lambda: a > b, 'In': lambda: a in b}[base]()
                return [(st, bool(res) != flip)]
            except Exception:
                return [(st, True), (st, False)]
        if l == r and l != TOP and base in ('Eq', 'Is'):
            return [(st, not flip)]
        if l == TOP or r == TOP or not self._worth(ln, rn):
            return [(st, True), (st, False)]
        if base == 'Eq' and repr(l) > repr(r):
            l, r = r, l
        k = ('cmp', base, l, r)
        if k in st.facts:
            return [(st, st.facts[k] != flip)]
        return [(st.fact(k, True), not flip), (st.fact(k, False), flip)]

    def none_status(self, st, v) -> Optional[bool]:
        if v == NONE:
            return True
        if v[0] in ('inst', 'func', 'bound', 'class', 'closure', 'tuple', 'exc', 'list', 'dict', 'str',
                    'comp', 'builtin', 'ext'):
            return False
        if is_const(v):
            return False
        k = ('none', v)
        if k in st.facts:
            return st.facts[k]
        if st.facts.get(('truth', v)) is True:
            return False
        return None

    def truth(self, st, v) -> Optional[bool]:
        t = self.dom.truth(self, st, v)
        if t is not None:
            return t
        if is_const(v):
            return bool(v[1])
        if v[0] == 'tuple':
            return bool(v[1])
        if v[0] in ('func', 'bound', 'class', 'closure', 'ext', 'builtin'):
            return True
        k = ('truth', v)
        if k in st.facts:
            return st.facts[k]
        if st.facts.get(('none', v)) is True:
            return False
        return None

    def split(self, st, v, node) -> List[Tuple[State, bool]]:
        t = self.truth(st, v)
        if t is not None:
            return [(st, t)]
        res = []
        for b in (True, False):
            r = self.dom.assume(self, st, v, b)
            if r is None:
                if v != TOP and self._worth(node):
                    res.append((st.fact(('truth', v), b), b))
                else:
                    res.append((st, b))
            else:
                res.extend((x, b) for x in r)
        return res

    # ---- calls ------------------------------------------------------------------------

    def ex_Call(self, e: ast.Call, st):
        self.stats['calls'] += 1
        # isinstance tests
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'isinstance' and len(e.args) == 2 and 'isinstance' not in st.env:
            res = []
            for x, v in self.eval(e.args[0], st):
                res.extend((y, const(b)) for y, b in self.isinstance_test(x, v, e.args[1], e))
            return res
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
                and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            fr = self.frame
            sv = None
            ps = fr.func.params()
            g = fr
            if ps and ps[0] in st.env:
                sv = st.env[ps[0]]
            if sv is not None and sv[0] == 'inst' and fr.cls is not None:
                m = self.ix.lookup_super(sv[1], fr.cls, f.attr)
                fvs = [(st, ('bound', m, sv) if m else ('ext', 'super.' + f.attr))]
            else:
                fvs = [(st, ('ext', 'super.' + f.attr))]
        else:
            fvs = self.eval(f, st)
        res = []
        argnodes = list(e.args)
        kwnodes = list(e.keywords)
        for x, fv in fvs:
            for y, vs in self.eval_list([a.value if isinstance(a, ast.Starred) else a for a in argnodes]
                                        + [k.value for k in kwnodes], x):
                args = vs[:len(argnodes)]
                kw = {k.arg: v for k, v in zip(kwnodes, vs[len(argnodes):]) if k.arg}
                if any(isinstance(a, ast.Starred) for a in argnodes) or any(k.arg is None for k in kwnodes):
                    kw = dict(kw)
                    kw['*'] = TOP
                res.extend(self.do_call(y, e, fv, args, kw))
        return self._dedup(res)

    def do_call(self, st, node, fv, args, kw):
        r = self.dom.call(self, st, node, fv, args, kw)
        if r is not None:
            return r
        if fv[0] == 'func':
            r = self.inline_call(fv[1], st, node, args, kw, None)
        elif fv[0] == 'bound':
            f = fv[1]
            if f.is_static:
                r = self.inline_call(f, st, node, args, kw, None)
            else:
                r = self.inline_call(f, st, node, [fv[2]] + args, kw, fv[2])
        elif fv[0] == 'closure':
            r = self.call_closure(fv, st, node, args, kw)
        if r is not None:
            return r
        for exc in self.dom.may_raise(self, st, node, fv):
            self.emit_raise(st, exc, node)
        r = self.dom.call_result(self, st, node, fv, args, kw)
        if r is not None:
            return r
        if fv[0] == 'class':
            return [(st, ('inst', fv[1], self.site(node)))]
        if fv[0] == 'ext' and fv[1].split('.')[-1] in ('cast',) and len(args) == 2:
            return [(st, args[1])]
        st, t = self.fresh(st, node, 'call')
        return [(st, t)]

    def bind(self, func: Func, args, kw) -> Optional[Dict[str, tuple]]:
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env: Dict[str, tuple] = {}
        star = '*' in kw
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            if a.vararg is None and not star:
                return None
        if a.vararg is not None:
            env[a.vararg.arg] = ('tuple', tuple(args[len(names):])) if not star else TOP
        rest = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k == '*':
                continue
            if k in names or k in konly:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = TOP
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for k, d in zip(konly, a.kw_defaults):
            if d is not None:
                defaults[k] = d
        for n in names + konly:
            if n not in env:
                if star:
                    env[n] = TOP
                elif n in defaults:
                    d = defaults[n]
                    if isinstance(d, ast.Constant):
                        env[n] = const(d.value)
                    elif isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) \
                            and isinstance(d.op, ast.USub):
                        env[n] = const(-d.operand.value)
                    elif isinstance(d, ast.Tuple) and not d.elts:
                        env[n] = ('tuple', ())
                    else:
                        env[n] = ('default', func.qual, n)
                else:
                    env[n] = TOP
        return env

    def inline_call(self, func: Func, st: State, node, args, kw, selfval):
        if func is None:
            return None
        if len(self.frames) > self.dom.max_depth:
            return None
        if any(fr.func is func or fr.func.node is func.node for fr in self.frames):
            return None
        if not self.dom.inline(self, func, node):
            return None
        if func.is_classmethod and (not args or args[0][0] != 'class'):
            args = [TOP] + list(args)
        env = self.bind(func, args, kw)
        if env is None:
            return None
        self._callnode = node
        return self._inline(func, st, env, selfval, None)

    def _inline(self, func, st, env, selfval, parent):
        self.stats['inlined'] += 1
        caller_env = st.env
        pre = self.frames[-1].path + f"/{getattr(self._callnode, 'lineno', 0)}:" \
                                     f"{getattr(self._callnode, 'col_offset', 0)}"
        ret, raised = self._run(func, State(env, st.facts), selfval, parent)
        for (s, exc), n in raised.items():
            self.emit_raise(self.gc_facts(s, pre, NONE, st.facts).with_env(caller_env), exc, n)
        isgen = self._is_generator(func)
        res = []
        for (s, v) in ret:
            if isgen:
                v = ('gen', func.qual)
            res.append((self.gc_facts(s, pre, v, st.facts).with_env(caller_env), v))
        return self._dedup(res)

    COND = ('truth', 'none', 'cmp', 'isinst', 'lo', 'mtpos', 'rel')

    def gc_facts(self, s: State, pre: str, val, before) -> State:
        """drops branch facts about temporaries of a finished call that are not part of its result"""
        drop = []
        for k in s.facts:
            if isinstance(k, tuple) and k[0] in self.COND and k not in before:
                if self._local_term(k[1:], pre) and not any(mentions(val, t) for t in k[1:] if isinstance(t, tuple)):
                    drop.append(k)
        return s.unfact(*drop) if drop else s

    def _local_term(self, v, pre) -> bool:
        if isinstance(v, tuple):
            return any(self._local_term(x, pre) for x in v)
        return isinstance(v, str) and v.startswith(pre)

    def _is_generator(self, func) -> bool:
        c = getattr(self, '_gc', None)
        if c is None:
            c = self._gc = {}
        k = id(func.node)
        if k not in c:
            from .src import own_nodes
            c[k] = not isinstance(func.node, ast.Lambda) and \
                any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(func.node))
        return c[k]

    def call_closure(self, fv, st, node, args, kw):
        func, level = fv[1], fv[2]
        if len(self.frames) > self.dom.max_depth + 2:
            return None
        if any(fr.func.node is func.node for fr in self.frames):
            return None
        if not self.dom.inline(self, func, node):
            return None
        env = self.bind(func, args, kw)
        if env is None:
            return None
        self._callnode = node
        if level == len(self.frames) - 1:
            # called from the frame that defines it: free variables are visible
            outer = st.env
            full = dict(outer)
            params = set(func.all_params())
            for p in params:
                full.pop(p, None)
            loc = self._locals(func)
            nonl = self._nonlocals(func)
            for n in loc - nonl:
                full.pop(n, None)
            full.update(env)
            self.stats['inlined'] += 1
            self._outer_names = frozenset(nonl)
            ret, raised = self._run(func, State(full, st.facts), None, self.frame)
            res = []

            def back(s):
                if not nonl:
                    return s.with_env(outer)
                e2 = dict(outer)
                for n in nonl:
                    if n in s.env:
                        e2[n] = s.env[n]
                return s.with_env(e2)
            for (s, exc), n in raised.items():
                self.emit_raise(back(s), exc, n)
            isgen = self._is_generator(func)
            for (s, v) in ret:
                res.append((back(s), ('gen', func.qual) if isgen else v))
            return self._dedup(res)
        return self._inline(func, st, env, None, self.frames[level] if level < len(self.frames) else None)

    def _locals(self, func) -> Set[str]:
        if func.locals_ is None:
            from .src import own_nodes
            s = set()
            if not isinstance(func.node, ast.Lambda):
                for n in own_nodes(func.node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        s.add(n.id)
            func.locals_ = s
        return func.locals_

    def _nonlocals(self, func) -> Set[str]:
        from .src import own_nodes
        s = set()
        if not isinstance(func.node, ast.Lambda):
            for n in own_nodes(func.node):
                if isinstance(n, ast.Nonlocal):
                    s.update(n.names)
        return s

    def isinstance_test(self, st, v, tnode, node):
        names = [(dotted(x) or '?').split('.')[-1]
                 for x in (tnode.elts if isinstance(tnode, ast.Tuple) else [tnode])]
        r = self.dom_isinstance(st, v, names, node)
        if r is not None:
            return r
        if v[0] == 'tuple':
            return [(st, 'tuple' in names or 'Tuple' in names or 'Sequence' in names or 'Iterable' in names)]
        if v[0] == 'const':
            tn = type(v[1]).__name__
            return [(st, tn in names)] if v[1] is not None else [(st, False)]
        if v[0] == 'inst':
            if any(k.name in names for k in self.ix.mro(v[1])):
                return [(st, True)]
            subs = {k.name for k in self.ix.subclasses(v[1])}
            if v[2] != 'self' or not subs & set(names):
                if all(n in self.ix.classes for n in names):
                    return [(st, False)]
        k = ('isinst', v, tuple(sorted(names)))
        if k in st.facts:
            return [(st, st.facts[k])]
        if v == TOP:
            return [(st, True), (st, False)]
        argnode = node.args[0] if isinstance(node, ast.Call) else None
        if argnode is not None and self._worth(argnode):
            return [(st.fact(k, True), True), (st.fact(k, False), False)]
        return [(st, True), (st, False)]

    def dom_isinstance(self, st, v, names, node):
        f = getattr(self.dom, 'isinstance', None)
        return f(self, st, v, names, node) if f else None
