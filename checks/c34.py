"""C34: nothing is added to or removed from a collection while it is looped over; what can be gone through only
once is gone through only once."""
from __future__ import annotations
import ast
import io
from typing import Dict, FrozenSet, Iterable, List, Optional, Set, Tuple

from sa.src import Index, Func, FUNC, dotted, unparse, own_nodes, nested_funcs
from sa.effects import Effects
from sa.flow import Client, Flow
from sa.report import Report
from .c08 import ATTR_TYPES, VAR_TYPES

EXPLANATION = ('Loops: the collection of every for-loop and comprehension is identified (through aliases, views and '
               'lazy iterators); no statement executed before the next step of the loop may add or remove elements of '
               'it: neither directly nor in a nested function, method or function that is called (side-effect '
               'summaries) nor in a user-supplied function that gets the owner of the collection. One-shot iterators '
               '(generators, zip, map, filter, reversed, finditer, parameters that are only promised to be iterable): '
               'a path-sensitive count of the uses of every variable that holds one; two uses on one path, or len(), '
               'subscripts and truth tests, are violations; so are one-shot iterators in attributes, global variables '
               'and results declared to be lists, tuples or sets.')
ASSUMPTIONS = ['two different expressions that denote the same collection are recognised through single '
               'assignments of local variables and arguments of calls only',
               'the child nodes of a node are a tuple (C07)']

ADDS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'add', 'discard', 'update', 'popitem', 'sort',
        'reverse', 'appendleft', 'popleft', 'extendleft', 'difference_update', 'intersection_update',
        'symmetric_difference_update', 'setdefault', '__delitem__', 'move_to_end', 'rotate', '__iadd__'}
VIEWS = {'items', 'keys', 'values'}
LAZY = {'enumerate', 'reversed', 'zip', 'map', 'filter', 'iter', 'chain', 'islice', 'takewhile', 'dropwhile',
        'zip_longest', 'starmap', 'filterfalse', 'pairwise'}
ONESHOT = {'zip', 'map', 'filter', 'reversed', 'iter', 'enumerate', 'chain', 'islice', 'takewhile', 'dropwhile',
           'zip_longest', 'starmap', 'filterfalse', 'finditer', 'scandir', 'iglob', 'pairwise', 'groupby', 'product',
           'permutations', 'combinations'}
TUPLES = {'_children', 'children', '_result', 'result'}


def last(e) -> str:
    return (dotted(e) or (e.attr if isinstance(e, ast.Attribute) else '')).split('.')[-1]


class Scope:
    """names of a function: what they are assigned, which functions are nested in it"""

    def __init__(self, f: Func):
        self.f = f
        self.assigned: Dict[str, List[Optional[ast.expr]]] = {}
        self.params = set(f.all_params())
        self.nested: Dict[str, Func] = {}
        for g in nested_funcs(f):
            if g.outer is not None and g.outer.node is f.node:
                self.nested[g.name] = g
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.target(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.target(n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                self.target(n.target, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                self.target(n.target, None)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self.target(n.optional_vars, None)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.assigned.setdefault(n.target.id, []).append(None)

    def target(self, t, v):
        if isinstance(t, ast.Name):
            self.assigned.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                w = None
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                    w = v.elts[i]
                self.target(x, w)
        elif isinstance(t, ast.Starred):
            self.target(t.value, None)

    def single(self, name: str) -> Optional[ast.expr]:
        if name in self.params:
            return None
        v = self.assigned.get(name, [])
        return v[0] if len(v) == 1 else None


class Mut:
    """a change of a collection"""
    __slots__ = ('text', 'node', 'how', 'index')

    def __init__(self, text, node, how, index=None):
        self.text, self.node, self.how, self.index = text, node, how, index


class Loops:
    def __init__(self, ix: Index, rep: Report):
        self.ix, self.rep = ix, rep
        self.eff = Effects(ix, attr_types=ATTR_TYPES, var_types=VAR_TYPES,
                           values=('name', 'content', 'pos', '_pos', 'strlen', 'anonymous'))
        self.scopes: Dict[int, Scope] = {}
        self._nested: Dict[int, List[Tuple[str, ast.AST]]] = {}
        self._changers: Optional[Dict[str, str]] = None

    def scope(self, f: Func) -> Scope:
        s = self.scopes.get(id(f.node))
        if s is None:
            s = self.scopes[id(f.node)] = Scope(f)
        return s

    # -- identities ---------------------------------------------------------------------------------------------

    def text(self, f: Func, e, depth=0) -> Optional[str]:
        """canonical name of the object an expression denotes"""
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                sc = self.scope(g)
                if e.id in sc.params:
                    return e.id
                if e.id in sc.assigned:
                    v = sc.single(e.id)
                    if depth < 4 and isinstance(v, (ast.Name, ast.Attribute)):
                        t = self.text(g, v, depth + 1)
                        if t is not None and t != e.id:
                            return t
                    return e.id
                g = g.outer
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.text(f, e.value, depth)
            return b + '.' + e.attr if b else None
        if isinstance(e, ast.Subscript) and isinstance(e.slice, (ast.Name, ast.Constant)):
            b = self.text(f, e.value, depth)
            return f'{b}[{unparse(e.slice)}]' if b else None
        if isinstance(e, ast.Call) and last(e.func) == 'cast' and len(e.args) == 2:
            return self.text(f, e.args[1], depth)
        return None

    def sources(self, f: Func, e, depth=0) -> List[Tuple[str, str, ast.expr]]:
        """(text, kind, expression) of the collections the iterable e reads while it is gone through"""
        if isinstance(e, ast.Call):
            n = last(e.func)
            if isinstance(e.func, ast.Attribute) and n in VIEWS and not e.args:
                return [(t, 'dict', x) for t, _, x in self.sources(f, e.func.value, depth)]
            if n in LAZY or n == 'cast':
                res = []
                for a in e.args:
                    res += [(t, 'list' if n in ('enumerate', 'reversed') else k, x)
                            for t, k, x in self.sources(f, a, depth)]
                return res
            return []
        if isinstance(e, ast.GeneratorExp):
            return self.sources(f, e.generators[0].iter, depth)
        if isinstance(e, ast.IfExp):
            return self.sources(f, e.body, depth) + self.sources(f, e.orelse, depth)
        if isinstance(e, ast.BoolOp):
            return [x for v in e.values for x in self.sources(f, v, depth)]
        if isinstance(e, ast.Name) and depth < 4:
            vs = self.scope(f).assigned.get(e.id, []) if e.id not in self.scope(f).params else []
            res = []
            for v in vs:
                if isinstance(v, ast.Call) and (last(v.func) in LAZY or last(v.func) in VIEWS) \
                        or isinstance(v, (ast.GeneratorExp, ast.IfExp)):
                    res += self.sources(f, v, depth + 1)
            if res:
                return res
        t = self.text(f, e)
        return [(t, '', e)] if t else []

    def fixed(self, f: Func, t: str, e) -> bool:
        """the collection is a tuple or a string"""
        if t.split('.')[-1] in TUPLES:
            return True
        if isinstance(e, ast.Name):
            sc = self.scope(f)
            vs = sc.assigned.get(e.id)
            if e.id not in sc.params and vs and all(isinstance(v, (ast.Tuple, ast.Constant, ast.JoinedStr)) or
                                 isinstance(v, ast.Call) and last(v.func) in ('tuple', 'str', 'frozenset', 'range')
                                 for v in vs):
                return True
        return False

    # -- what a statement changes -------------------------------------------------------------------------------

    def direct(self, f: Func, n) -> Iterable[Mut]:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ADDS:
            t = self.text(f, n.func.value)
            if t and not self.own_method(f, n):
                yield Mut(t, n, f'.{n.func.attr}()', n.args[0] if n.func.attr == 'setdefault' and n.args else None)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('heappush', 'heappop', 'insort', 'shuffle') and n.args:
            t = self.text(f, n.args[0])
            if t:
                yield Mut(t, n, n.func.id)
        elif isinstance(n, ast.Delete):
            for x in n.targets:
                if isinstance(x, ast.Subscript):
                    t = self.text(f, x.value)
                    if t:
                        yield Mut(t, n, 'del')
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x]):
                    if isinstance(y, ast.Subscript):
                        t = self.text(f, y.value)
                        if t:
                            yield Mut(t, n, 'item' if not isinstance(y.slice, ast.Slice) else 'slice', y.slice)
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor)):
                listy = isinstance(n.value, (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.Dict, ast.DictComp)) or \
                    isinstance(n.value, ast.Call) and last(n.value.func) in ('list', 'set', 'dict', 'sorted')
                t = self.text(f, n.target)
                if t and listy:
                    yield Mut(t, n, 'augmented assignment')

    def own_method(self, f: Func, n: ast.Call) -> bool:
        """`self.add(…)`, `self.pop(…)` of a class of the package"""
        v = n.func.value
        return isinstance(v, ast.Name) and f.cls is not None and f.params() and v.id == f.params()[0] and \
            self.ix.lookup(f.cls, n.func.attr) is not None

    def nested_muts(self, g: Func, seen=frozenset()) -> List[Tuple[str, str]]:
        """changes a nested function makes to what it sees of its surroundings"""
        k = id(g.node)
        if k in self._nested:
            return self._nested[k]
        if k in seen:
            return []
        own = set(g.all_params()) | {n for n in self.scope(g).assigned}
        own -= {x for q in own_nodes(g.node) if isinstance(q, ast.Nonlocal) for x in q.names}
        res = []
        for n in own_nodes(g.node):
            for m in self.muts_of(g, n, seen | {k}):
                if m.text.split('.')[0].split('[')[0] not in own:
                    res.append((m.text, m.how, m.index))
        if not seen:
            self._nested[k] = res
        return res

    def muts_of(self, f: Func, n, seen=frozenset()) -> List[Mut]:
        res = list(self.direct(f, n))
        if not isinstance(n, ast.Call) or res:
            return res
        fn = n.func
        if isinstance(fn, ast.Name):
            g = f
            while g is not None:
                if fn.id in self.scope(g).nested:
                    h = self.scope(g).nested[fn.id]
                    for t, how, ind in self.nested_muts(h, seen):
                        res.append(Mut(t, n, f'in {fn.id}()', None))
                    res += self.nested_params(f, h, n)
                    return res
                if fn.id in self.scope(g).params or fn.id in self.scope(g).assigned:
                    return res
                g = g.outer
            h = self.ix.resolve_func(f.module, fn.id)
            if h is not None:
                res += self.by_summary(f, h, n, None)
            return res
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and last(fn.value.func) == 'super' and f.cls is not None:
                h = self.ix.lookup_super(f.cls, f.cls, fn.attr)
                if h is not None:
                    me = self.method_self(f)
                    res += self.by_summary(f, h, n, me)
                return res
            recv = self.text(f, fn.value)
            me = self.method_self(f)
            if me is not None and recv == me and f_cls(f) is not None:
                for h in self.eff.virtual(f_cls(f), fn.attr):
                    res += self.by_summary(f, h, n, me)
                return res
            hs = self.ix.methods_named(fn.attr)
            if recv and 0 < len(hs) <= 3 and not hasattr(list, fn.attr) and not hasattr(dict, fn.attr) \
                    and not hasattr(set, fn.attr) and not hasattr(str, fn.attr):
                for h in hs:
                    res += self.by_summary(f, h, n, recv)
        return res

    @staticmethod
    def method_self(f: Func) -> Optional[str]:
        g = f
        while g.outer is not None:
            g = g.outer
        if g.cls is not None and not g.is_static and g.params():
            return g.params()[0]
        return None

    def nested_params(self, f, h: Func, call) -> List[Mut]:
        own = {x.arg: i for i, x in enumerate(h.node.args.posonlyargs + h.node.args.args)}
        res = []
        for n in own_nodes(h.node):
            for m in self.direct(h, n):
                root = m.text.split('.')[0].split('[')[0]
                if root in own and own[root] < len(call.args):
                    t = self.text(f, call.args[own[root]])
                    if t:
                        res.append(Mut(t + m.text[len(root):], call, f'in {h.name}()'))
        return res

    def by_summary(self, f: Func, h: Func, call: ast.Call, recv: Optional[str]) -> List[Mut]:
        s = self.eff.sum.get(id(h.node))
        if s is None:
            return []
        a = h.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        vals: Dict[int, Optional[str]] = {}
        off = 0
        if recv is not None and not h.is_static:
            vals[0] = recv
            off = 1
        for i, x in enumerate(call.args):
            if isinstance(x, ast.Starred):
                break
            vals[i + off] = self.text(f, x)
        for k in call.keywords:
            if k.arg in names:
                vals[names.index(k.arg)] = self.text(f, k.value)
        res = []
        for (o, attr), via in s.mut.items():
            if attr != '[]':
                continue
            if o[0] == 'p' and vals.get(o[1]) and all('[]' not in x for x in o[2:]):
                # recursive structures are cut off by the summaries: a change of the own container only
                if len(o) - 2 > 1:
                    continue
                if not self.reaches(h, o, attr):
                    continue
                res.append(Mut('.'.join((vals[o[1]],) + tuple(o[2:])), call, f'in {h.qual}()'))
            elif o[0] == 'g' and len(o) == 2:
                res.append(Mut(o[1].split('.')[-1], call, f'in {h.qual}()'))
        return res

    def reaches(self, h, o, attr) -> bool:
        """is elements' number changed (not only an item replaced)?"""
        s = self.eff.sum[id(h.node)]
        via = s.mut[(o, attr)]
        for e in self.eff.events.get(id(h.node), ()):
            if e.origin == o and e.attr == attr:
                return not self.item_only(e.node) or bool(e.via)
        return True

    @staticmethod
    def item_only(n) -> bool:
        return False

    # -- control flow inside the body -----------------------------------------------------------------------------

    def goes_on(self, loop, node) -> bool:
        """may the loop take another step after node has been executed?"""
        if isinstance(loop, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return True

        def contains(s):
            return any(x is node for x in ast.walk(s))

        def rest(stmts) -> Set[str]:
            """how a block ends: 'next' (falls through or continues), 'out'"""
            cur = True
            ends = set()
            for s in stmts:
                e = one(s)
                ends |= e - {'fall'}
                if 'fall' not in e:
                    cur = False
                    break
            if cur:
                ends.add('fall')
            return ends

        def one(s) -> Set[str]:
            if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
                return {'out'}
            if isinstance(s, ast.Continue):
                return {'next'}
            if isinstance(s, ast.If):
                return rest(s.body) | rest(s.orelse)
            if isinstance(s, (ast.With, ast.AsyncWith)):
                return rest(s.body)
            if isinstance(s, ast.Try):
                r = rest(s.body) | {x for h in s.handlers for x in rest(h.body)}
                if s.finalbody:
                    q = rest(s.finalbody)
                    if 'fall' not in q:
                        return q
                return r
            if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
                return {'fall'} | ({'out'} if any(isinstance(x, ast.Return) for x in ast.walk(s)) else set())
            return {'fall'}

        def after(stmts) -> Set[str]:
            for i, s in enumerate(stmts):
                if not contains(s):
                    continue
                ends: Set[str] = {'fall'}
                if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
                    ends = {'fall'}
                    if isinstance(s, (ast.For, ast.AsyncFor)) or True:
                        inner = after(s.body) if any(contains(x) for x in s.body) else {'fall'}
                        if inner == {'out'} and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                            ends = {'out'}
                else:
                    for blk in ('body', 'orelse', 'finalbody', 'handlers'):
                        b = getattr(s, blk, None)
                        if blk == 'handlers' and b:
                            for h in b:
                                if contains(h):
                                    ends = after(h.body)
                        elif isinstance(b, list) and any(contains(x) for x in b):
                            ends = after(b)
                            if blk == 'body' and isinstance(s, ast.Try):
                                ends = ends | {x for h in s.handlers for x in rest(h.body)}
                    if isinstance(s, (ast.Return, ast.Raise)):
                        ends = {'out'}
                if 'fall' in ends:
                    ends = (ends - {'fall'}) | rest(stmts[i + 1:])
                return ends
            return {'fall'}

        return bool(after(loop.body) - {'out'})

    # -- the rule -----------------------------------------------------------------------------------------------

    def function(self, f: Func):
        for n in own_nodes(f.node):
            if isinstance(n, (ast.For, ast.AsyncFor)):
                self.loop(f, n, n.iter, n.target, n.body)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for i, g in enumerate(n.generators):
                    body = ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]) + g.ifs + \
                        [x.iter for x in n.generators[i + 1:]] + [y for x in n.generators[i + 1:] for y in x.ifs]
                    self.loop(f, n, g.iter, g.target, body)

    def loop(self, f: Func, loop, it, target, body):
        src = self.sources(f, it)
        self.rep.count('loops')
        self.by_index(f, loop, it, body)
        if not src:
            self.rep.ok('loop over a value of its own')
            return
        bad = False
        for t, kind, e in src:
            if self.fixed(f, t, e):
                continue
            w = self.suspended(f, loop, body, t)
            if w is not None:
                bad = True
                self.rep.violation('changed-while-awaiting', f'{f.qual}:{t}', f'{f.module.rel}:{w.lineno}',
                                   f'other tasks run while {unparse(w, 60)} is awaited, and they change "{t}", which '
                                   f'the loop in line {it.lineno} is going through ({self.changers[t.split(".")[-1]]})')
            for s in body:
                for n in self.inside(s):
                    for m in self.muts_of(f, n):
                        if m.text != t or self.harmless(f, m, kind, target, t, e):
                            continue
                        if not self.goes_on(loop, n):
                            continue
                        if self.rebound(f, t, loop):
                            continue
                        bad = True
                        self.rep.violation('changed-while-iterated', f'{f.qual}:{t}', f'{f.module.rel}:{n.lineno}',
                                           f'"{t}" is changed ({m.how}: {unparse(n, 60)}) while the loop in line '
                                           f'{it.lineno} goes through it')
                    if self.callback(f, n, t) and self.goes_on(loop, n):
                        bad = True
                        self.rep.violation('callback-while-iterated', f'{f.qual}:{t}', f'{f.module.rel}:{n.lineno}',
                                           f'the function called by {unparse(n, 60)} gets hold of "{t}" while the '
                                           f'loop in line {it.lineno} goes through it')
        if not bad:
            self.rep.ok('collection is not changed inside the loop')

    def by_index(self, f, loop, it, body):
        """for i in range(len(X)): nothing may be removed from X"""
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and
                len(it.args) <= 2 and it.args):
            return
        ln = it.args[-1]
        if not (isinstance(ln, ast.Call) and isinstance(ln.func, ast.Name) and ln.func.id == 'len' and len(ln.args) == 1):
            return
        t = self.text(f, ln.args[0])
        if t is None:
            return
        for s in body:
            for n in self.inside(s):
                for m in self.direct(f, n):
                    if m.text == t and m.how in ('.pop()', '.remove()', '.clear()', 'del', '.popleft()') \
                            and self.goes_on(loop, n) and not self.rebound(f, t, loop):
                        self.rep.violation('changed-while-iterated', f'{f.qual}:{t}', f'{f.module.rel}:{n.lineno}',
                                           f'"{t}" is changed ({unparse(n, 60)}) while the loop in line {it.lineno} '
                                           'counts through its indices')

    def suspended(self, f, loop, body, t):
        """the place where the loop waits while other tasks may change the attribute it goes through"""
        if '.' not in t or t.split('.')[-1] not in self.changers:
            return None
        for s in body:
            for n in self.inside(s):
                if isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)) and self.goes_on(loop, n):
                    return n
        return None

    @property
    def changers(self) -> Dict[str, str]:
        """attributes whose elements are added or removed somewhere -> where"""
        if self._changers is None:
            self._changers = {}
            for f in self.ix.all_functions():
                for g in [f] + nested_funcs(f):
                    for n in own_nodes(g.node):
                        for m in self.direct(g, n):
                            if '.' in m.text and '[' not in m.text:
                                self._changers.setdefault(m.text.split('.')[-1],
                                                          f'{g.module.rel}:{n.lineno} {g.qual}')
        return self._changers

    @staticmethod
    def inside(s):
        """the nodes executed with the statement (definitions of functions are not)"""
        todo = [s]
        while todo:
            n = todo.pop()
            if isinstance(n, FUNC + (ast.Lambda, ast.ClassDef)):
                continue
            yield n
            todo.extend(ast.iter_child_nodes(n))

    def harmless(self, f, m: Mut, kind, target, t, e) -> bool:
        if m.how != 'item' and not m.how == '.setdefault()':
            return False
        names = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
        if isinstance(m.index, ast.Name) and m.index.id in names and m.how == 'item':
            return True         # an existing key or index
        if m.how == '.setdefault()':
            return isinstance(m.index, ast.Name) and m.index.id in names
        return kind != 'dict' and not self.dictish(f, e)

    def dictish(self, f, e) -> bool:
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                sc = self.scope(g)
                for v in sc.assigned.get(e.id, []):
                    if isinstance(v, (ast.Dict, ast.DictComp)) or isinstance(v, ast.Call) and \
                            last(v.func) in ('dict', 'OrderedDict', 'defaultdict'):
                        return True
                a = g.node.args
                for p in a.posonlyargs + a.args + a.kwonlyargs:
                    if p.arg == e.id and p.annotation is not None and 'Dict' in unparse(p.annotation):
                        return True
                g = g.outer
        return False

    def rebound(self, f, t, loop) -> bool:
        """the name is bound anew inside the loop before (list being replaced, not changed)"""
        root = t.split('.')[0].split('[')[0]
        for n in ast.walk(loop):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == root \
                    and not self.aug(loop, n):
                return True
        return False

    @staticmethod
    def aug(loop, name) -> bool:
        return any(isinstance(x, ast.AugAssign) and x.target is name for x in ast.walk(loop))

    def callback(self, f: Func, n, t) -> bool:
        if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Name):
            return False
        name = n.func.id
        g, v = f, None
        while g is not None:
            sc = self.scope(g)
            if name in sc.nested:
                return False
            if name in sc.assigned:
                vs = sc.assigned[name]
                if not any(isinstance(x, ast.Subscript) or isinstance(x, ast.Call) and last(x.func) in
                           ('getattr', '__getattribute__', 'get') for x in vs if x is not None):
                    return False
                break
            if name in sc.params:
                return False
            g = g.outer
        if g is None:
            return False
        owners = {t}
        if '.' in t:
            owners.add(t.rsplit('.', 1)[0])
        return any(self.text(f, a) in owners for a in n.args)


def f_cls(f: Func):
    g = f
    while g.outer is not None:
        g = g.outer
    return g.cls


# -- one-shot iterators ------------------------------------------------------------------------------------------

SIZED = {'List', 'Tuple', 'Set', 'FrozenSet', 'Dict', 'Sequence', 'Collection', 'list', 'tuple', 'set', 'dict', 'frozenset',
         'Sized', 'MutableSequence', 'MutableSet', 'AbstractSet', 'Mapping', 'MutableMapping'}
NEUTRAL = {'isinstance', 'callable', 'type', 'id', 'hasattr', 'repr', 'bool', 'iter', 'next', 'getattr', 'is_iterator'}


class Uses(Client):
    """atoms: frozenset of (name, kind, used) for names that hold something that can be gone through once"""
    comp_targets = True

    def __init__(self, chk: 'OneShot', f: Func):
        self.k, self.f, self.ix, self.rep = chk, f, chk.ix, chk.rep
        self.parent: Dict[int, ast.AST] = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                self.parent[id(c)] = n
        self.nested_names = {n.id for d in own_nested(f) for n in ast.walk(d)
                             if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        self.shared: Set[str] = set()

    def get(self, atom, name):
        for a in atom:
            if a[0] == name:
                return a
        return None

    def put(self, atom, name, kind, used=0):
        r = frozenset(a for a in atom if a[0] != name)
        return r | {(name, kind, used)} if kind else r

    def event(self, kind, node, atom, flow, func):
        if kind == 'store' and isinstance(node, ast.Name):
            s = getattr(node, '_stmt', None)
            p = self.parent.get(id(node))
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and not isinstance(p, (ast.Tuple, ast.List)):
                k = self.k.oneshot(self.f, s.value)
                if k is None and isinstance(s.value, ast.Name):
                    a = self.get(atom, s.value.id)
                    if a is not None and a[1] != 'iterable':
                        k = a[1]
                return (self.put(atom, node.id, k),)
            return (self.put(atom, node.id, None),)
        if kind == 'load' and isinstance(node, ast.Name):
            a = self.get(atom, node.id)
            if a is None:
                return (atom,)
            use = self.use(node, a)
            if use == 'alias':
                return (self.put(atom, node.id, None),)
            if use == 'bad-len':
                self.k.bad('not-a-collection', self.f, node, f'"{node.id}" ({a[1]}) has neither length nor items and '
                           'is never empty as far as truth tests can tell')
                return (atom,)
            if use == 'one':
                if a[2]:
                    self.k.bad('gone-through-twice', self.f, node,
                               f'"{node.id}" ({self.k.describe(a[1])}) has already been gone through on a path that '
                               'leads here: nothing is left')
                    return (atom,)
                self.k.good()
                return (self.put(atom, node.id, a[1], 1),)
        return (atom,)

    def use(self, node: ast.Name, a) -> Optional[str]:
        p = self.parent.get(id(node))
        kind = a[1]
        if isinstance(p, ast.Starred):
            return 'one'
        if isinstance(p, ast.keyword):
            self.argument(self.parent.get(id(p)), node, a, p.arg)
            return 'one'
        if isinstance(p, ast.Call):
            if p.func is not node:
                self.argument(p, node, a, None)
            if p.func is node:
                return None
            n = last(p.func)
            if n == 'len':
                return 'bad-len'
            if n == 'next':
                return None
            if n == 'iter':
                return 'one' if kind == 'iterable' else None
            if n == 'cast':
                return self.use_of(p, a)
            if n in NEUTRAL:
                return None
            if n in ('islice', 'takewhile') and kind != 'iterable':
                return None
            return 'one'
        if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is node:
            if kind != 'iterable' and any(isinstance(x, ast.Break) for x in ast.walk(p)):
                return None
            return 'one'
        if isinstance(p, ast.comprehension) and p.iter is node:
            return 'one'
        if isinstance(p, ast.Attribute) and p.value is node and kind != 'iterable' and \
                (hasattr(list, p.attr) or hasattr(set, p.attr) or hasattr(dict, p.attr)) and not p.attr.startswith('__'):
            return 'bad-len'
        if isinstance(p, ast.Subscript) and p.value is node:
            return 'bad-len' if kind != 'iterable' else None
        if isinstance(p, ast.Compare):
            if any(isinstance(o, (ast.In, ast.NotIn)) and c is node for o, c in zip(p.ops, p.comparators)):
                return 'one'
            return None
        if isinstance(p, ast.BinOp):
            return 'bad-len' if kind != 'iterable' else None
        if isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is node:
            t = p.targets[0] if isinstance(p, ast.Assign) else p.target
            if isinstance(t, (ast.Tuple, ast.List)):
                return 'one'
            if isinstance(t, ast.Name):
                return 'alias'
            return 'one'
        if isinstance(p, (ast.Return, ast.Yield, ast.YieldFrom, ast.Tuple, ast.List, ast.Dict)):
            return 'one'
        if kind != 'iterable' and self.truth(node, p):
            return 'bad-len'
        return None

    def argument(self, call, node, a, kw):
        if a[1] == 'iterable' or not isinstance(call, ast.Call):
            return
        d = self.k.wants(self.f, call, node, kw)
        if d:
            self.k.bad('declared', self.f, call, f'"{node.id}" ({a[1]}) is passed where a {d} is asked for')

    def use_of(self, p, a):
        q = self.parent.get(id(p))
        if isinstance(q, (ast.For, ast.comprehension)):
            return 'one'
        return None

    def truth(self, node, p) -> bool:
        if isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is node:
            return True
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
            return True
        if isinstance(p, ast.BoolOp) and p.values[-1] is not node:
            return True
        return False

    def branch(self, test, atom, truth, flow, func):
        n = test
        while isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            n, truth = n.operand, not truth
        if isinstance(n, ast.Call) and last(n.func) == 'isinstance' and n.args and isinstance(n.args[0], ast.Name):
            a = self.get(atom, n.args[0].id)
            if a is not None and a[1] == 'iterable':
                ts = {last(x) for x in (n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]])}
                lazy = ts & {'Iterator', 'Generator', 'GeneratorType', 'Iterable'}
                if truth and not lazy:
                    return (self.put(atom, a[0], None),)
                if not truth and lazy:
                    return (self.put(atom, a[0], None),)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(n.left, ast.Name) and isinstance(n.comparators[0], ast.Constant):
            a = self.get(atom, n.left.id)
            if a is not None and isinstance(n.ops[0], ast.Is) == truth:
                return (self.put(atom, a[0], None),)
        return (atom,)

    def may_raise(self, call, atom, flow, func):
        # an exception while something is gone through: the attempt counts, what follows is another matter
        return in_try(self.parent, call)

    def raised(self, call, atom, flow, func):
        return (frozenset((n, k, 0) for n, k, u in atom),)


def in_try(parent, n) -> bool:
    while id(n) in parent:
        n = parent[id(n)]
        if isinstance(n, ast.Try):
            return True
        if isinstance(n, FUNC):
            return False
    return False


def own_nested(f: Func):
    for n in ast.walk(f.node):
        if n is not f.node and isinstance(n, FUNC + (ast.Lambda,)):
            yield n


class OneShot:
    def __init__(self, ix: Index, rep: Report):
        self.ix, self.rep = ix, rep
        self.scopes: Dict[int, Scope] = {}
        self._gen: Dict[int, bool] = {}

    def scope(self, f):
        s = self.scopes.get(id(f.node))
        if s is None:
            s = self.scopes[id(f.node)] = Scope(f)
        return s

    def good(self):
        self.rep.ok('one-shot iterator used once')

    def bad(self, rule, f, node, msg):
        self.rep.violation(rule, f'{f.qual}:{unparse(node, 40)}', f'{f.module.rel}:{node.lineno}', msg)

    @staticmethod
    def describe(kind):
        return 'a parameter that is only promised to be iterable' if kind == 'iterable' else kind

    def generator(self, f: Func) -> bool:
        k = id(f.node)
        if k not in self._gen:
            self._gen[k] = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)) and \
                not any((dotted(d.func if isinstance(d, ast.Call) else d) or '').endswith('contextmanager')
                        for d in f.node.decorator_list)
        if self._gen[k]:
            return True
        return self.declared(f.node.returns) in ('Iterator', 'Generator')

    @staticmethod
    def declared(ann) -> str:
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return ''
        if isinstance(ann, ast.Subscript):
            return last(ann.value)
        return last(ann) if ann is not None else ''

    def callee(self, f: Func, e: ast.Call) -> List[Func]:
        fn = e.func
        if isinstance(fn, ast.Name):
            g = f
            while g is not None:
                sc = self.scope(g)
                if fn.id in sc.nested:
                    return [sc.nested[fn.id]]
                if fn.id in sc.params or fn.id in sc.assigned:
                    return []
                g = g.outer
            h = self.ix.resolve_func(f.module, fn.id)
            return [h] if h is not None else []
        if isinstance(fn, ast.Attribute) and fn.attr not in ('items', 'keys', 'values', 'get', 'pop'):
            if isinstance(fn.value, ast.Name) and fn.value.id in f.module.imports and \
                    self.ix.find_class(f.module, fn.value.id) is None:
                return []
            if any(hasattr(t, fn.attr) for t in (str, list, dict, set, io.TextIOWrapper, io.BytesIO)):
                return []
            return self.ix.methods_named(fn.attr)
        return []

    def oneshot(self, f: Func, e, depth=0) -> Optional[str]:
        if isinstance(e, ast.GeneratorExp):
            return 'generator expression'
        if isinstance(e, ast.IfExp):
            return self.oneshot(f, e.body, depth) or self.oneshot(f, e.orelse, depth)
        if not isinstance(e, ast.Call):
            return None
        n = last(e.func)
        if n == 'cast' and len(e.args) == 2:
            return self.oneshot(f, e.args[1], depth)
        if isinstance(e.func, ast.Name) and n in ONESHOT or isinstance(e.func, ast.Attribute) and \
                n in ONESHOT and (n in ('finditer', 'scandir', 'iglob') or dotted(e.func.value) == 'itertools'):
            g = f
            while g is not None:
                sc = self.scope(g)
                if isinstance(e.func, ast.Name) and (n in sc.nested or n in sc.params or n in sc.assigned):
                    return None
                g = g.outer
            if isinstance(e.func, ast.Name) and self.ix.resolve_func(f.module, n) is not None:
                return None
            if n == 'finditer' and self.ix.methods_named('finditer') and isinstance(e.func.value, ast.Name) is False:
                pass
            return n + '()'
        cs = self.callee(f, e)
        if cs and all(self.generator(c) for c in cs):
            return f'generator {n}()'
        return None

    def wants(self, f: Func, call: ast.Call, arg, kw: Optional[str]) -> Optional[str]:
        """the collection the function called asks for in this place, if its annotation promises one"""
        cs = self.callee(f, call)
        if len(cs) != 1:
            return None
        h = cs[0]
        if isinstance(call.func, ast.Attribute) and not (isinstance(call.func.value, ast.Name)
                                                         and call.func.value.id in ('self', 'cls')):
            return None
        a = h.node.args
        ps = a.posonlyargs + a.args
        if kw is None:
            if any(isinstance(x, ast.Starred) for x in call.args):
                return None
            i = next((i for i, x in enumerate(call.args) if x is arg), None)
            if i is None:
                return None
            if isinstance(call.func, ast.Attribute) and h.cls is not None and not h.is_static:
                i += 1
            if i >= len(ps):
                return None
            p = ps[i]
        else:
            p = next((x for x in ps + a.kwonlyargs if x.arg == kw), None)
            if p is None:
                return None
        ann = p.annotation
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if ann is None:
            return None
        parts = [ann]
        if isinstance(ann, ast.Subscript) and last(ann.value) in ('Union', 'Optional'):
            parts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        found = None
        for x in parts:
            n = last(x.value) if isinstance(x, ast.Subscript) else last(x)
            if n not in SIZED and isinstance(x, ast.Name):
                g = self.ix.resolve_global(h.module, n)
                if g is not None and isinstance(g[1], ast.Subscript):
                    n = last(g[1].value)
            if n in SIZED:
                found = n
            elif not (isinstance(x, ast.Constant) and x.value is None or n in ('str', 'int', 'bool', 'float', 'bytes')
                      or n in self.ix.classes):
                return None
        return found

    def iterables(self, f: Func) -> FrozenSet:
        res = set()
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            ann = p.annotation
            if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                try:
                    ann = ast.parse(ann.value, mode='eval').body
                except SyntaxError:
                    continue
            parts = [ann]
            if isinstance(ann, ast.Subscript) and last(ann.value) in ('Union', 'Optional'):
                parts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            for x in parts:
                n = last(x.value) if isinstance(x, ast.Subscript) else last(x) if x is not None else ''
                if n in ('Iterable', 'Iterator', 'Generator'):
                    res.add((p.arg, 'iterable' if n == 'Iterable' else n, 0))
        return frozenset(res)

    def function(self, f: Func):
        ones = self.iterables(f)
        for p in ones:
            self.rep.count('parameters')
        found = bool(ones)
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                k = self.oneshot(f, n.value)
                if k is None:
                    continue
                found = True
                self.rep.count('iterators')
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute) and not self.replaced(f, n):
                        self.bad('kept', f, n, f'a {k} is kept in the attribute "{t.attr}": only the first reader '
                                 'will find something in it')
                    elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                        self.bad('kept', f, n, f'a {k} is kept in a container: only the first reader will find '
                                 'something in it')
            elif isinstance(n, ast.Return) and n.value is not None:
                k = self.oneshot(f, n.value)
                d = self.declared(f.node.returns)
                if k is not None:
                    found = True
                    if d in SIZED:
                        self.bad('declared', f, n, f'a {k} is returned where a {d} is promised')
                    else:
                        self.rep.ok('declared result')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1:
                k = self.oneshot(f, n.args[0])
                if k is not None:
                    self.bad('not-a-collection', f, n, f'a {k} has no length')
            elif isinstance(n, ast.Call):
                for arg, kw in [(x, None) for x in n.args] + [(k.value, k.arg) for k in n.keywords]:
                    k = self.oneshot(f, arg) if isinstance(arg, (ast.Call, ast.GeneratorExp)) else None
                    if k is not None:
                        d = self.wants(f, n, arg, kw)
                        if d:
                            self.bad('declared', f, n, f'a {k} is passed where a {d} is asked for')
                        else:
                            self.rep.ok('argument')
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                k = self.oneshot(f, n.value) if isinstance(n.value, (ast.Call, ast.GeneratorExp)) else None
                if k is not None:
                    self.bad('not-a-collection', f, n, f'a {k} has no items that could be picked out')
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                k = self.oneshot(f, n.test)
                if k is not None:
                    self.bad('not-a-collection', f, n.test, f'a {k} is true even if it yields nothing')
        if found:
            Flow(Uses(self, f)).run(f, {ones})

    def replaced(self, f, n) -> bool:
        return False

    def modules(self):
        for m in self.ix.modules.values():
            for name, e in m.globals.items():
                if isinstance(e, ast.GeneratorExp) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
                        and e.func.id in ONESHOT and e.func.id not in m.functions:
                    self.rep.violation('kept', f'{m.name}:{name}', f'{m.rel}:{e.lineno}',
                                       f'a one-shot iterator is kept in the global variable "{name}"')
            for c in m.classes.values():
                for s in c.node.body:
                    if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, (ast.GeneratorExp, ast.Call)):
                        v = s.value
                        if isinstance(v, ast.GeneratorExp) or isinstance(v.func, ast.Name) and v.func.id in ONESHOT:
                            self.rep.violation('kept', f'{c.name}:{unparse(s, 40)}', f'{m.rel}:{s.lineno}',
                                               'a one-shot iterator is kept in a class attribute')


def check(ix: Index, rep: Report, tier: str):
    rep.rule = 'no change of a collection inside a loop over it; one-shot iterators are used once'
    loops, ones = Loops(ix, rep), OneShot(ix, rep)
    for f in ix.all_functions():
        for g in [f] + nested_funcs(f):
            loops.function(g)
            ones.function(g)
    ones.modules()
    rep.floor('loops', 200)
    rep.floor('iterators', 1)
    rep.floor('parameters', 1)
