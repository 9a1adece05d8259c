"""C33: regular expressions compile, their groups exist, matches are tested, no exponential loops, positions in a view"""
from __future__ import annotations
import ast
import re
from typing import Dict, FrozenSet, List, Optional, Set, Tuple

from sa.src import Index, Func, FUNC, Class, Module, dotted, nested_funcs, own_nodes, unparse, AnalysisError
from sa.flow import Flow, Client
from sa.regex import Fold, Rx, TooComplex, Ambiguity, FLAGS

EXPLANATION = (
    'Every regular expression whose text is determined by the source (constants, formatted, joined and concatenated '
    'constants, class and module attributes) is parsed statically: it has to be well formed, and its automaton must '
    'not have a loop some text of which can be read along two different paths before the expression can still fail '
    '(exponential backtracking). A path-sensitive analysis of every function that uses match objects then decides that '
    'groups that are asked for (by number, by name, by unpacking, in replacement texts) exist in every expression the '
    'match can stem from, that a result that can be None - a failed match, a group that need not take part - is tested '
    'before it is used, and that the positions of a match made on a StringView are mapped by index() or indices() '
    'before they are used as positions in the view. LazyRE compiles with its own flags wherever it compiles.')
ASSUMPTIONS = ['asserting that a match succeeded counts as a test',
               'a match object that is handed to another function is examined there']

RE_FUNCS = {'compile', 'match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer'}
ONE = {'match', 'search', 'fullmatch'}
USES = {'group', 'groups', 'groupdict', 'span', 'start', 'end', 'expand'}
ATTRS = {'lastgroup', 'lastindex', 'string', 're', 'pos', 'endpos', 'regs'}
MAKERS = {'LazyRE', 'RegExp', 'SmartRE'}
NAMED = re.compile(r'\(\?P<(:?\w+)>')


def last(e):
    d = dotted(e)
    return d.split('.')[-1] if d else (e.attr if isinstance(e, ast.Attribute) else None)


class World:
    def __init__(self, ix: Index):
        self.ix = ix
        self.fold = Fold(ix)
        self.funcs: List[Func] = []
        for f in ix.all_functions():
            self.funcs.append(f)
            self.funcs += nested_funcs(f)
        self.by_node = {id(f.node): f for f in self.funcs}
        self.ret: Dict[int, Optional[tuple]] = {}
        self.said: Set = set()
        self.counted: Set = set()
        self.raw: Dict[int, tuple] = {}         # functions that hand back positions in the text behind a view

    # -- regular expression objects ------------------------------------------------------------------------------

    def flags(self, call: ast.Call, pos: int, m, f) -> Optional[int]:
        a = call.args[pos] if len(call.args) > pos else None
        for k in call.keywords:
            if k.arg == 'flags':
                a = k.value
        if a is None:
            return 0
        v = self.fold.values(a, m, f)
        return next(iter(v)) if v and len(v) == 1 and isinstance(next(iter(v)), int) else None

    def made(self, call: ast.Call, m, f, env=None, cls=None) -> Optional[FrozenSet[Rx]]:
        """the expressions re.compile(..) or LazyRE(..) makes"""
        if not call.args:
            return None
        v = self.fold.values(call.args[0], m, f, env, cls)
        fl = self.flags(call, 1, m, f)
        if v is None or fl is None:
            return None
        return frozenset(Rx(p, fl) for p in v if isinstance(p, (str, bytes)))

    def rxs(self, e, m: Module, f: Optional[Func], depth=0) -> Optional[FrozenSet[Rx]]:
        """the expressions a regular-expression object can be; None if unknown"""
        if depth > 6 or e is None:
            return None
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d == 're.compile' or last(e.func) == 'LazyRE':
                return self.made(e, m, f)
            if last(e.func) == 'cast' and len(e.args) == 2:
                return self.rxs(e.args[1], m, f, depth + 1)
            return None
        if isinstance(e, ast.Name):
            exprs, m2, f2 = self.fold.name(e.id, m, f, None)
            if not exprs:
                return None
            parts = [self.rxs(x, m2, f2, depth + 1) for x in exprs]
            return None if any(p is None for p in parts) else frozenset().union(*parts)
        if isinstance(e, ast.Attribute):
            if e.attr == 'Pattern':
                return self.rxs(e.value, m, f, depth + 1)
            r = self.fold.attr(e, m, f)
            if r:
                return self.rxs(r[0], r[1], r[2], depth + 1)
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.rxs(e.body, m, f, depth + 1), self.rxs(e.orelse, m, f, depth + 1)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
            exprs, m2, f2 = self.fold.name(e.value.id, m, f, None)
            out: Set[Rx] = set()
            for x in exprs:
                if isinstance(x, ast.Dict):
                    parts = [self.rxs(v, m2, f2, depth + 1) for v in x.values]
                elif isinstance(x, ast.DictComp) and isinstance(x.value, ast.Call):
                    parts = [self.made(x.value, m2, f2, env) for env in self.envs(x, m2, f2)]
                else:
                    return None
                if any(p is None for p in parts):
                    return None
                out |= frozenset().union(*parts)
            return frozenset(out) if exprs else None
        return None

    def envs(self, comp, m, f) -> List[Dict]:
        res: List[Dict] = [{}]
        for g in comp.generators:
            lit = self.fold.literal(g.iter, m, f)
            if lit is None or not isinstance(g.target, ast.Name):
                return []
            res = [{**e, g.target.id: [x]} for e in res for x in lit]
        return res

    def is_view(self, e, m, f: Optional[Func], depth=0) -> bool:
        """is the value surely a StringView?"""
        if depth > 5:
            return False
        if isinstance(e, ast.Call):
            l = last(e.func)
            if l == 'StringView':
                return True
            if isinstance(e.func, ast.Attribute) and l in ('strip', 'lstrip', 'rstrip'):
                return self.is_view(e.func.value, m, f, depth + 1)
            return False
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            return self.is_view(e.value, m, f, depth + 1)
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                a = g.node.args
                for p in a.posonlyargs + a.args + a.kwonlyargs:
                    if p.arg == e.id:
                        return p.annotation is not None and 'StringView' in ast.unparse(p.annotation) \
                            and 'str]' not in ast.unparse(p.annotation)
                st = self.fold.stores(g).get(e.id)
                if st:
                    known = [x for x in st if x is not None]
                    if known and len(known) == len(st):
                        return all(self.is_view(x, m, g, depth + 1) or refers(x, e.id) for x in known)
                    if not (len(st) == 1 and is_nonlocal(g, e.id)):
                        return False
                g = g.outer if isinstance(g.outer, Func) else None
        return False

    # -- what a function hands back -----------------------------------------------------------------------------

    def callee(self, call: ast.Call, f: Optional[Func], m: Module) -> Optional[Func]:
        fn = call.func
        if isinstance(fn, ast.Name):
            o = f
            while o is not None:
                for g in self.funcs:
                    if g.name == fn.id and g.outer is not None and g.outer.node is o.node:
                        return g
                o = o.outer if isinstance(o.outer, Func) else None
            return self.ix.resolve_func(m, fn.id)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') \
                and f is not None and f.cls:
            return self.ix.lookup(f.cls, fn.attr)
        return None

    def noreturn(self, g: Func) -> bool:
        def ends(body) -> bool:
            if not body:
                return False
            s = body[-1]
            if isinstance(s, ast.Raise):
                return True
            if isinstance(s, ast.If):
                return ends(s.body) and ends(s.orelse)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                return dotted(s.value.func) in ('sys.exit', 'exit', 'quit', 'os._exit', 'os.abort')
            return False
        return ends(g.node.body) and not any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom))
                                             for n in own_nodes(g.node))


def refers(x, name) -> bool:
    """x = x.strip(), x = x[1:]: stays of the same type"""
    while isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)):
        if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice):
            return False
        if isinstance(x, ast.Call) and (not isinstance(x.func, ast.Attribute)
                                        or x.func.attr not in ('strip', 'lstrip', 'rstrip')):
            return False
        x = x.func if isinstance(x, ast.Call) else x.value
    return isinstance(x, ast.Name) and x.id == name


def is_nonlocal(g: Func, name) -> bool:
    return any(isinstance(n, ast.Nonlocal) and name in n.names for n in own_nodes(g.node))


# kinds: ('M?', key) match or None; ('M', key); ('N',) None; ('G?',) text or None; ('D', key) groupdict; ('S', key)
# groups; ('T', name, polarity) truth of a match; ('P',) position of a match in the text behind a view
# key: (frozenset of Rx | None, made on a view?)

class Matches(Client):
    comp_targets = True

    def __init__(self, w: World, rep, f: Func):
        self.w, self.rep, self.f = w, rep, f
        self.said, self.counted = w.said, w.counted
        self.repl: List[Tuple[object, FrozenSet]] = []
        self.shield = shielded(f)

    def ok(self, rule, node):
        if (rule, id(node)) not in self.counted:
            self.counted.add((rule, id(node)))
            self.rep.ok(rule)

    def bad(self, rule, node, msg):
        key = (rule, self.f.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        if key in self.said:
            return
        self.said.add(key)
        self.rep.violation(rule, f'{self.f.qual}:{unparse(node, 60)}', f'{self.f.module.rel}:{node.lineno}', msg)

    # -- kinds of values -----------------------------------------------------------------------------------------

    def get(self, atom, name):
        for a in atom:
            if a[0] == name:
                return a[1]
        return None

    def set(self, atom, name, kind):
        r = frozenset(a for a in atom if a[0] != name
                      and not (a[0].startswith('=') and re.search(r'(?<![\w.])' + re.escape(name) + r'\b', a[0]))
                      and not (a[1][0] == 'T' and a[1][1] == name))
        return r | {(name, kind)} if kind is not None else r

    def key_of(self, call: ast.Call, func: Func):
        """the key of the match a call of match(), search(), fullmatch() or finditer() makes"""
        m = func.module
        fn = call.func
        if dotted(fn.value) == 're' if isinstance(fn, ast.Attribute) else False:
            if not call.args:
                return (None, False)
            v = self.w.fold.values(call.args[0], m, func)
            fl = self.w.flags(call, 2, m, func)
            if v is not None and fl is not None:
                return (frozenset(Rx(p, fl) for p in v if isinstance(p, (str, bytes))), self.view_arg(call, func))
            rx = self.w.rxs(call.args[0], m, func)
            return (rx, False)
        rx = self.w.rxs(fn.value, m, func)
        if rx is not None:
            return (rx, False)
        if call.args:
            rx = self.w.rxs(call.args[0], m, func)
            if rx is not None or self.w.is_view(fn.value, m, func):
                return (rx, True)
        return (None, False)

    def view_arg(self, call, func) -> bool:
        return False

    def iterated(self, e, func: Func, depth=0):
        """the key of the matches an iterator yields"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'finditer':
            return self.key_of(e, func)
        if isinstance(e, ast.Call) and last(e.func) in ('list', 'tuple', 'reversed', 'iter', 'sorted') and e.args:
            return self.iterated(e.args[0], func, depth)
        if isinstance(e, ast.Name) and depth < 3:
            g = func
            while g is not None:
                st = self.w.fold.stores(g).get(e.id)
                if st:
                    for x in st:
                        if x is not None:
                            k = self.iterated(x, g, depth + 1)
                            if k is not None:
                                return k
                g = g.outer if isinstance(g.outer, Func) else None
        return None

    def owner(self, e) -> Optional[str]:
        d = dotted(e)
        return d if d and (d.count('.') == 0 or d.startswith('self.') and d.count('.') == 1) else None

    def kind(self, e, atom, func: Func):
        if isinstance(e, ast.NamedExpr):
            return self.kind(e.value, atom, func)
        o = self.owner(e)
        if o:
            return self.get(atom, o)
        if isinstance(e, ast.Constant):
            return ('N',) if e.value is None else None
        if isinstance(e, ast.IfExp) or isinstance(e, ast.BoolOp):
            parts = [e.body, e.orelse] if isinstance(e, ast.IfExp) else e.values
            ks = [self.kind(p, atom, func) for p in parts]
            ms = [k for k in ks if k and k[0] in ('M', 'M?')]
            if isinstance(e, ast.BoolOp):
                if isinstance(e.op, ast.Or):
                    if ms and len(ms) == len(ks):
                        return ('M?' if all(k[0] == 'M?' for k in ks) else 'M', self.join(ms))
                    return ks[-1] if ks[-1] and ks[-1][0] == 'G?' else None
                if ks[-1] and ks[-1][0] in ('M', 'M?'):
                    return ('M?', ks[-1][1])
                return ('G?',) if ks[-1] and ks[-1][0] == 'G?' or \
                    (ks[0] and ks[0][0] == 'M?' and self.is_text(e.values[-1], atom, func)) else None
            if ms and all(k and k[0] in ('M', 'M?', 'N') for k in ks):
                return ('M' if all(k[0] == 'M' for k in ks) else 'M?', self.join(ms))
            if any(k == ('N',) for k in ks) and any(self.is_text(p, atom, func) for p in parts):
                return ('G?',)
            if any(k and k[0] == 'G?' for k in ks):
                return ('G?',)
            return ('P',) if ('P',) in ks else None
        if isinstance(e, ast.Call):
            fn = e.func
            l = last(fn)
            if l == 'cast' and len(e.args) == 2:
                return self.kind(e.args[1], atom, func)
            if isinstance(fn, ast.Attribute) and fn.attr in ONE:
                t = '=' + ast.unparse(e)
                if self.get(atom, t):
                    return self.get(atom, t)
                if dotted(fn.value) == 're' and len(e.args) >= 2 and self.kind(e.args[1], atom, func) == ('GT',):
                    return None     # a part of a text that has matched is looked at more closely: not judged
                if len(e.args) == 1 and self.kind(e.args[0], atom, func) == ('GT',):
                    return None
                return ('M?', self.key_of(e, func))
            if l == 'next' and e.args:
                k = self.iterated(e.args[0], func)
                if k is not None:
                    return ('M' if len(e.args) == 1 else 'M?', k)
            if isinstance(fn, ast.Attribute) and fn.attr in USES | {'get'}:
                b = self.kind(fn.value, atom, func)
                if b and b[0] in ('M', 'M?'):
                    if fn.attr == 'group' and len(e.args) == 1:
                        return self.text_kind(b[1], e.args[0], func)
                    if fn.attr == 'groupdict' and not e.args and not e.keywords:
                        return ('D', b[1])
                    if fn.attr == 'groups' and not e.args and not e.keywords:
                        return ('S', b[1])
                    if fn.attr in ('start', 'end') and b[1][1]:
                        return ('P',)
                    if fn.attr == 'span' and b[1][1]:
                        return ('PP',)
                if b and b[0] == 'D' and fn.attr == 'get' and len(e.args) == 1:
                    return self.text_kind(b[1], e.args[0], func)
                return None
            if l == 'bool' and len(e.args) == 1 and self.owner(e.args[0]):
                k = self.kind(e.args[0], atom, func)
                if k and k[0] in ('M?', 'G?'):
                    return ('T', self.owner(e.args[0]), True)
            g = self.w.callee(e, func, func.module)
            if g is not None:
                return self.w.raw.get(id(g.node)) or self.returned(g)
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and self.owner(e.left) \
                and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            k = self.kind(e.left, atom, func)
            if k and k[0] in ('M?', 'G?'):
                return ('T', self.owner(e.left), isinstance(e.ops[0], (ast.IsNot, ast.NotEq)))
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            if self.owner(e.operand):
                k = self.kind(e.operand, atom, func)
                if k and k[0] in ('M?', 'G?'):
                    return ('T', self.owner(e.operand), False)
            return None
        if isinstance(e, ast.Subscript):
            b = self.kind(e.value, atom, func)
            if b and b[0] in ('M', 'M?', 'D', 'S'):
                if b[0] == 'S':
                    v = const(e.slice)
                    if isinstance(v, int) and b[1][0] and v >= 0 and all(r.error is None and r.has(v + 1)
                                                                          and r.optional(v + 1) for r in b[1][0]):
                        return ('G?',)
                    return None
                return self.text_kind(b[1], e.slice, func)
            if b and b[0] == 'PP' and const(e.slice) is not None:
                return ('P',)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.kind(e.left, atom, func), self.kind(e.right, atom, func)
            pa, pb = a == ('P',), b == ('P',)
            if pa and pb:
                return None
            return ('P',) if pa or pb and isinstance(e.op, ast.Add) else None
        return None

    def join(self, ms):
        rx: Set = set()
        for k in ms:
            if k[1][0] is None:
                return (None, all(x[1][1] for x in ms))
            rx |= k[1][0]
        return (frozenset(rx), all(x[1][1] for x in ms))

    def is_text(self, e, atom, func) -> bool:
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'group':
            b = self.kind(e.func.value, atom, func)
            return bool(b and b[0] in ('M', 'M?'))
        return False

    def text_kind(self, key, arg, func):
        v = self.w.fold.values(arg, func.module, func)
        if v and len(v) == 1 and key[0]:
            g = next(iter(v))
            if isinstance(g, (str, int)) and all(r.error is None and r.has(g) and r.optional(g) for r in key[0]):
                return ('G?',)
        return ('GT',)

    def returned(self, g: Func):
        """does the function hand back a fresh match that may be None?"""
        key = id(g.node)
        if key in self.w.ret:
            return self.w.ret[key]
        self.w.ret[key] = None
        ks = []
        for n in own_nodes(g.node):
            if isinstance(n, ast.Return) and n.value is not None:
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ONE:
                    k = self.key_of(v, g)
                    ks.append(('M?', k) if k[0] is not None or k[1] else None)
                elif isinstance(v, ast.Constant) and v.value is None:
                    ks.append(('N',))
                else:
                    ks.append(None)
        if ks and all(ks) and any(k[0] == 'M?' for k in ks):
            self.w.ret[key] = ('M?', self.join([k for k in ks if k[0] == 'M?']))
        return self.w.ret[key]

    # -- events --------------------------------------------------------------------------------------------------

    def may_raise(self, call, atom, flow, func):
        return bool(self.in_try(call))

    def in_try(self, node):
        return True

    def event(self, kind, node, atom, flow, func):
        if kind == 'call':
            return self.on_call(node, atom, func)
        if kind == 'load':
            if isinstance(node, ast.Attribute) and node.attr in ATTRS:
                self.use(node.value, node, atom, func)
            elif isinstance(node, ast.Attribute):
                self.text_use(node.value, node, atom, func)
            elif isinstance(node, ast.Subscript):
                self.on_subscript(node, atom, func)
        elif kind == 'store':
            return (self.on_store(node, atom, func),)
        elif kind == 'return':
            self.on_return(node, atom, func)
        return (atom,)

    def begin(self, stmt, atom, flow, func):
        for n in comparisons(stmt):
            terms = [n.left] + n.comparators
            for a, b, op in zip(terms, terms[1:], n.ops):
                if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                    continue
                ka, kb = self.kind(a, atom, func), self.kind(b, atom, func)
                if (ka == ('P',)) != (kb == ('P',)):
                    self.bad('position', n, 'compares the position of a match in the text behind a StringView with '
                                            'a position that is not one (index() or indices() map it to the view)')
        for n in expressions(stmt):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
                for x, y in ((n.left, n.right), (n.right, n.left)):
                    if self.kind(x, atom, func) == ('G?',):
                        self.bad('untested-group', n, f'{unparse(x)} is None when the group takes no part in the '
                                                      f'match')
        return atom

    def on_subscript(self, node, atom, func):
        sl = node.slice
        b = self.kind(node.value, atom, func)
        if b and b[0] in ('M', 'M?', 'N'):
            self.use(node.value, node, atom, func)
            self.groups(b, [sl], node, func)
        elif b and b[0] == 'D':
            self.groups(b, [sl], node, func)
        elif b and b[0] == 'S':
            v = const(sl)
            if isinstance(v, int) and b[1][0]:
                n = v + 1 if v >= 0 else -v
                if all(r.error is None and n > r.ngroups for r in b[1][0]):
                    self.bad('group', node, f'the expression has {max(r.ngroups for r in b[1][0])} groups only')
                else:
                    self.ok('group', node)
        elif b and b[0] == 'G?':
            self.text_use(node.value, node, atom, func)
        parts = [sl.lower, sl.upper] if isinstance(sl, ast.Slice) else [sl]
        for p in parts:
            if p is not None and self.kind(p, atom, func) == ('P',) and not (b and b[0] == 'PP') \
                    and self.position_matters(node.value, func):
                self.bad('position', node, 'the position of a match in the text behind a StringView is used as a '
                                           'position in the view (index() or indices() map it to the view)')

    def position_matters(self, base, func) -> bool:
        """everything but the underlying text itself"""
        d = dotted(base) or ''
        return d.split('.')[-1] not in ('_text', 'text__', 'string', 'original_text', 'source', 'document__')

    def use(self, e, node, atom, func):
        k = self.kind(e, atom, func)
        if k is None:
            return
        if k[0] in ('M?', 'N'):
            if id(node) in self.shield:
                return
            o = self.owner(e)
            if k[0] == 'N' and not self.matchy(o, func):
                return
            self.bad('untested', node, f'{unparse(e)} is None when the expression does not match, and this has not '
                                       f'been tested on some path to here')
        elif k[0] == 'M':
            self.ok('untested', node)

    def matchy(self, o, func) -> bool:
        """is the variable used for matches in this function?"""
        if o is None:
            return False
        st = self.w.fold.stores(func).get(o) or []
        return any(isinstance(x, (ast.Call, ast.IfExp)) and 'match' in ast.unparse(x) or x is not None
                   and 'search(' in ast.unparse(x) for x in st if x is not None)

    def text_use(self, e, node, atom, func):
        k = self.kind(e, atom, func)
        if k == ('G?',) and id(node) not in self.shield:
            self.bad('untested-group', node, f'{unparse(e)} is None when the group takes no part in the match, and '
                                             f'this has not been tested on some path to here')

    def groups(self, b, args, node, func):
        rx = b[1][0] if len(b) > 1 else None
        if not rx:
            return
        for a in args:
            v = self.w.fold.values(a, func.module, func)
            if not v or len(v) != 1:
                continue
            g = next(iter(v))
            if not isinstance(g, (str, int)) or isinstance(g, bool):
                continue
            rs = [r for r in rx if r.error is None]
            if rs and all(not r.has(g) or (b[0] == 'D' and not isinstance(g, str)) for r in rs):
                self.bad('group', node, f'the expression {rs[0].pattern!r} has no group {g!r}')
            else:
                self.ok('group', node)

    def on_call(self, e: ast.Call, atom, func):
        fn = e.func
        if isinstance(fn, ast.Attribute):
            if fn.attr in USES:
                b = self.kind(fn.value, atom, func)
                if b and b[0] in ('M', 'M?', 'N'):
                    self.use(fn.value, e, atom, func)
                    if fn.attr in ('group', 'span', 'start', 'end'):
                        self.groups(b, e.args, e, func)
                    if fn.attr == 'expand' and e.args:
                        self.template(e.args[0], b[1][0] if len(b) > 1 else None, e, func)
            b = self.kind(fn.value, atom, func)
            if b and b[0] == 'D' and fn.attr in ('get', 'pop') and e.args:
                self.groups(b, e.args[:1], e, func)
            if b == ('G?',):
                self.text_use(fn.value, e, atom, func)
            if fn.attr in ('sub', 'subn') or dotted(fn) in ('re.sub', 're.subn'):
                self.substitution(e, atom, func)
            if fn.attr in ('find', 'rfind', 'startswith', 'endswith', 'count', 'search', 'match') \
                    and self.w.is_view(fn.value, func.module, func):
                for a in e.args + [k.value for k in e.keywords]:
                    if self.kind(a, atom, func) == ('P',):
                        self.bad('position', e, 'the position of a match in the text behind a StringView is handed '
                                                'to a method of the view (index() or indices() map it to the view)')
        elif isinstance(fn, ast.Name) and fn.id in ('int', 'float', 'len', 'ord') and e.args:
            self.text_use(e.args[0], e, atom, func)
        g = self.w.callee(e, func, func.module)
        if g is not None:
            if self.w.noreturn(g):
                return ()
            for a in e.args + [k.value for k in e.keywords]:
                o = self.owner(a)
                if o and self.get(atom, o) and self.get(atom, o)[0] in ('M?', 'G?'):
                    atom = self.set(atom, o, None)
            if isinstance(fn, ast.Attribute):
                atom = frozenset(a for a in atom if not a[0].startswith('self.'))
        return (atom,)

    def substitution(self, e: ast.Call, atom, func):
        fn = e.func
        m = func.module
        if dotted(fn.value) == 're':
            if len(e.args) < 2:
                return
            v = self.w.fold.values(e.args[0], m, func)
            rx = frozenset(Rx(p, 0) for p in v if isinstance(p, (str, bytes))) if v else \
                self.w.rxs(e.args[0], m, func)
            repl = e.args[1]
        else:
            rx = self.w.rxs(fn.value, m, func)
            repl = e.args[0] if e.args else None
        if repl is None or rx is None:
            return
        key = (rx, False)
        if isinstance(repl, ast.Lambda):
            self.repl.append((repl, key))
        elif isinstance(repl, ast.Name):
            g = self.w.callee(ast.Call(func=repl, args=[], keywords=[]), func, m)
            if g is not None:
                self.repl.append((g, key))
            else:
                self.template(repl, rx, e, func)
        else:
            self.template(repl, rx, e, func)

    def template(self, repl, rx, node, func):
        v = self.w.fold.values(repl, func.module, func)
        if not v or not rx:
            return
        from sa.regex import sre_parse
        for r in rx:
            if r.error is not None:
                continue
            for t in v:
                if not isinstance(t, type(r.pattern)):
                    continue
                try:
                    sre_parse.parse_template(t, re.compile(r.pattern, r.flags))
                    self.ok('template', node)
                except (re.error, IndexError) as ex:
                    self.bad('template', node, f'replacement {t!r} does not fit the expression {r.pattern!r}: {ex}')

    def on_store(self, t, atom, func):
        o = self.owner(t)
        st = getattr(t, '_stmt', None)
        if o is None:
            return atom
        k = None
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and st.value is not None:
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            if any(x is t for x in ts):
                k = self.kind(st.value, atom, func)
            else:
                k = self.unpacked(t, st, atom, func)
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.comprehension)):
            if st.target is t:
                key = self.iterated(st.iter, func)
                if key is not None:
                    k = ('M', key)
                elif isinstance(st.iter, (ast.GeneratorExp, ast.ListComp)) and not isinstance(st, ast.For):
                    elt = st.iter.elt
                    if isinstance(elt, ast.Call) and isinstance(elt.func, ast.Attribute) and elt.func.attr in ONE:
                        k = ('M?', self.key_of(elt, func))
            else:
                self.rows(t, st, func)
        return self.set(atom, o, k)

    def rows(self, t, st, func):
        """for a, b in rx.findall(..)"""
        e = st.iter
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'findall' \
                and isinstance(st.target, ast.Tuple):
            rx = self.key_of(e, func)[0]
            if rx and not any(isinstance(x, ast.Starred) for x in st.target.elts):
                n = len(st.target.elts)
                if all(r.error is None and r.ngroups >= 2 and r.ngroups != n for r in rx):
                    self.bad('group', e, f'every row has {max(r.ngroups for r in rx)} groups, not {n}')
                else:
                    self.ok('group', e)

    def unpacked(self, t, st, atom, func):
        v = st.value
        target = next((x for x in (st.targets if isinstance(st, ast.Assign) else [st.target])
                       if isinstance(x, (ast.Tuple, ast.List)) and any(y is t for y in x.elts)), None)
        if target is None or any(isinstance(x, ast.Starred) for x in target.elts):
            return None
        n = len(target.elts)
        i = next(i for i, x in enumerate(target.elts) if x is t)
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == n:
            return self.kind(v.elts[i], atom, func)
        k = self.kind(v, atom, func)
        if k and k[0] == 'PP':
            return ('P',)
        if k and k[0] == 'S' and k[1][0]:
            rs = [r for r in k[1][0] if r.error is None]
            if rs and all(r.ngroups != n for r in rs):
                self.bad('group', v, f'the expression has {rs[0].ngroups} groups, not {n}')
            elif rs:
                self.ok('group', v)
                if all(r.optional(i + 1) for r in rs if r.has(i + 1)):
                    return ('G?',)
            return None
        if isinstance(v, (ast.ListComp, ast.GeneratorExp)) and len(v.generators) == 1 \
                and isinstance(v.generators[0].target, ast.Name) and isinstance(v.elt, ast.Name) \
                and v.elt.id == v.generators[0].target.id:
            g = v.generators[0]
            b = self.kind(g.iter, atom, func)
            if b and b[0] == 'S' and b[1][0] and len(g.ifs) == 1 and self.nonnull(g.ifs[0], v.elt.id):
                for r in b[1][0]:
                    if r.error is None:
                        c = r.counts()
                        if c and c != {n}:
                            self.bad('group', v, f'{sorted(c)} groups can take part in a match of the expression, '
                                                 f'not {n}')
                        elif c:
                            self.ok('group', v)
        return None

    @staticmethod
    def nonnull(test, name) -> bool:
        return isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == name \
            and isinstance(test.ops[0], (ast.IsNot, ast.NotEq)) and const(test.comparators[0], 0) is None

    def on_return(self, node, atom, func):
        v = node.value
        if v is None:
            return
        parts = v.elts if isinstance(v, ast.Tuple) else [v]
        raw = [p for p in parts if self.kind(p, atom, func) in (('P',), ('PP',))]
        if raw and all(self.kind(p, atom, func) in (('P',), ('PP',)) or isinstance(p, ast.Constant) for p in parts):
            # a helper that only reads off the positions: judged where they are used, if it is only called there
            if not self.escapes(func):
                self.w.raw[id(func.node)] = ('PP',) if isinstance(v, ast.Tuple) or self.kind(v, atom, func) == ('PP',) \
                    else ('P',)
                return
        if raw:
            self.bad('position', node, f'{unparse(raw[0])}, a position in the text behind a StringView, is handed back '
                                       f'(index() or indices() map it to the view)')

    def escapes(self, func: Func) -> bool:
        """is the function handed over as a value, so that its callers are not known?"""
        o = func.outer.node if isinstance(func.outer, Func) else func.module.tree
        called = {id(n.func) for n in ast.walk(o) if isinstance(n, ast.Call)}
        return any(isinstance(n, ast.Name) and n.id == func.name and isinstance(n.ctx, ast.Load)
                   and id(n) not in called for n in ast.walk(o))

    # -- tests ---------------------------------------------------------------------------------------------------

    def branch(self, test, atom, truth, flow, func):
        e = test
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) \
                and e.comparators[0].value is None and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                truth = not truth
            e = e.left.target if isinstance(e.left, ast.NamedExpr) else e.left
        elif isinstance(e, ast.Call) and last(e.func) in ('bool', 'isinstance') and e.args:
            e = e.args[0]
        elif isinstance(e, ast.Call) and not (isinstance(e.func, ast.Attribute) and e.func.attr in ONE):
            for a in ast.walk(e):
                o = self.owner(a) if isinstance(a, ast.expr) else None
                if o and self.get(atom, o) and self.get(atom, o)[0] in ('M?', 'G?'):
                    atom = self.set(atom, o, None)
            if isinstance(e.func, ast.Attribute) and (dotted(e.func) or '').startswith('self.'):
                atom = frozenset(a for a in atom if not a[0].startswith('self.'))
            return (atom,)
        elif isinstance(e, ast.Compare):
            # any other comparison with the text of a group: it is compared with something that is not None
            for a in [e.left] + e.comparators:
                o = self.owner(a)
                if o and self.get(atom, o) and self.get(atom, o)[0] == 'G?':
                    atom = self.set(atom, o, None)
            return (atom,)
        o = self.owner(e)
        k = self.get(atom, o) if o else None
        if k is None:
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ONE and truth:
                return (atom | {('=' + ast.unparse(e), ('M', self.key_of(e, func)))},)
            return (atom,)
        if k[0] == 'T':
            o, pol = k[1], k[2]
            k2 = self.get(atom, o)
            if k2 is None:
                return (atom,)
            return self.refine(atom, o, k2, truth == pol)
        return self.refine(atom, o, k, truth)

    def refine(self, atom, o, k, truth):
        keep = [a for a in atom if a[1][0] == 'T' and a[1][1] == o]
        if k[0] == 'M?':
            r = self.set(atom, o, ('M', k[1]) if truth else ('N',))
            return (r | frozenset(keep),)
        if k[0] == 'G?':
            return (self.set(atom, o, None) | frozenset(keep) if truth else atom,)
        if k[0] == 'N' and truth:
            return ()
        if k[0] == 'M' and not truth:
            return ()
        return (atom,)


def const(e, default='?'):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return -e.operand.value
    return None if default == '?' else default


def expressions(stmt):
    """the expressions a statement evaluates itself (conditions that are evaluated in between excluded)"""
    if isinstance(stmt, (ast.If, ast.While)):
        roots = [stmt.test] if not isinstance(stmt.test, ast.BoolOp) else []
    elif isinstance(stmt, (ast.For, ast.AsyncFor)):
        roots = [stmt.iter]
    elif isinstance(stmt, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return, ast.Expr)):
        roots = [stmt.value] if stmt.value is not None else []
    else:
        roots = []
    while roots:
        n = roots.pop()
        yield n
        if isinstance(n, (ast.Lambda, ast.BoolOp, ast.IfExp, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            continue
        roots += [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]


def comparisons(stmt):
    roots = [stmt.test] if isinstance(stmt, (ast.If, ast.While)) else [stmt.iter] if isinstance(
        stmt, (ast.For, ast.AsyncFor)) else [c for c in ast.iter_child_nodes(stmt) if isinstance(c, ast.expr)] \
        if not isinstance(stmt, FUNC + (ast.ClassDef, ast.Try, ast.With)) else []
    while roots:
        n = roots.pop()
        if isinstance(n, ast.Compare):
            yield n
        if not isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            roots += [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]


def shielded(f: Func) -> Set[int]:
    """nodes inside a try that catches what using None raises"""
    out: Set[int] = set()
    for n in own_nodes(f.node):
        names = set()
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is None:
                    names.add('Exception')
                else:
                    names |= {last(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
            body = n.body
        elif isinstance(n, ast.With):
            for it in n.items:
                if isinstance(it.context_expr, ast.Call) and last(it.context_expr.func) == 'suppress':
                    names |= {last(a) for a in it.context_expr.args}
            body = n.body
        else:
            continue
        if names & {'AttributeError', 'TypeError', 'Exception', 'BaseException'}:
            for s in body:
                out |= {id(x) for x in ast.walk(s)}
    return out


def relevant(f: Func, names=()) -> bool:
    for n in own_nodes(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ONE | USES | {'finditer', 'findall', 'sub', 'subn'}:
            return True
        if isinstance(n, ast.Call) and last(n.func) in names:
            return True
    return False


def expressions_of(w: World, rep):
    """every expression the source determines is well formed and has no exponential loop"""
    fold = w.fold
    done: Set = set()
    skipped = 0

    def judge(pattern, fl, where, construct, whole=False):
        r = Rx(pattern, fl)
        if r.error is not None:
            rep.violation('malformed', construct, where, f'{pattern!r}: {r.error}')
            return
        rep.ok('malformed')
        p = pattern + (r'\Z' if isinstance(pattern, str) else rb'\Z') if whole else pattern
        if whole:
            r = Rx(f'(?:{pattern})\\Z' if isinstance(pattern, str) else b'(?:' + pattern + rb')\Z', fl)
            if r.error is not None:
                return
        if isinstance(pattern, bytes):
            r = Rx(r.pattern.decode('latin-1'), fl)
            if r.error is not None:
                return
        try:
            x = Ambiguity(r).search()
        except TooComplex:
            rep.count('expressions too large for the ambiguity analysis')
            return
        if x is not None:
            rep.violation('exponential', construct, where,
                          f'{pattern!r}: a loop can read texts made of {x} in more and more ways before the expression '
                          f'fails: the time doubles with every repetition')
        else:
            rep.ok('exponential')

    def site(call: ast.Call, m: Module, f: Optional[Func], cls: Optional[Class], env):
        nonlocal skipped
        d = dotted(call.func) or ''
        l = last(call.func)
        if d.startswith('re.') and d[3:] in RE_FUNCS:
            pos = {'compile': 1, 'match': 2, 'search': 2, 'fullmatch': 2, 'findall': 2, 'finditer': 2, 'split': 3,
                   'sub': 4, 'subn': 4}[d[3:]]
        elif l in MAKERS:
            pos = 1 if l == 'LazyRE' else 99
        else:
            return
        if not call.args:
            return
        v = fold.values(call.args[0], m, f, env, cls)
        fl = w.flags(call, pos, m, f) if pos < 99 else 0
        if v is None or fl is None:
            skipped += 1
            return
        for p in v:
            if not isinstance(p, (str, bytes)):
                continue
            if l == 'SmartRE' and isinstance(p, str):
                p = NAMED.sub('(', p)
            whole = d == 're.fullmatch'
            if (p, fl, whole) in done:
                continue
            done.add((p, fl, whole))
            where = f'{m.rel}:{call.lineno}'
            judge(p, fl, where, f'{f.qual if f else m.name + ("." + cls.name if cls else "")}:{str(p)[:60]!r}', whole)

    def walk(n, m, f, cls, env_list):
        if isinstance(n, ast.Call):
            for env in env_list:
                site(n, m, f, cls, env)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'fullmatch' and dotted(n.func.value) != 're':
                for r in w.rxs(n.func.value, m, f) or ():
                    if r.error is None and (r.pattern, r.flags, True) not in done:
                        done.add((r.pattern, r.flags, True))
                        judge(r.pattern, r.flags, f'{m.rel}:{n.lineno}', f'{f.qual if f else m.name}:fullmatch', True)
        if isinstance(n, FUNC):
            g = w.by_node.get(id(n))
            for c in ast.iter_child_nodes(n):
                walk(c, m, g or f, None, [None])
            return
        if isinstance(n, ast.ClassDef):
            c2 = m.classes.get(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c, m, f, c2 if c2 is not None and c2.node is n else None, [None])
            return
        if isinstance(n, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            envs = w.envs(n, m, f) or [None]
            for c in ast.iter_child_nodes(n):
                walk(c, m, f, cls, envs)
            return
        for c in ast.iter_child_nodes(n):
            walk(c, m, f, cls, env_list)
    for m in w.ix.modules.values():
        walk(m.tree, m, None, None, [None])
    # patterns that are kept as text and compiled elsewhere
    for m in w.ix.modules.values():
        for c in m.classes.values():
            for st in c.node.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
                        and st.targets[0].id in ('COMMENT__', 'WHITESPACE__', 'WSP_RE__'):
                    for p in fold.values(st.value, m, None, None, c) or ():
                        if isinstance(p, str):
                            judge(p, 0, f'{m.rel}:{st.lineno}', f'{m.name}.{c.name}.{st.targets[0].id}')
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
                    and re.match(r'(RE|RX|_RX)_', st.targets[0].id):
                for p in fold.values(st.value, m) or ():
                    if isinstance(p, (str, bytes)) and (p, 0, False) not in done:
                        done.add((p, 0, False))
                        judge(p, 0, f'{m.rel}:{st.lineno}', f'{m.name}.{st.targets[0].id}')
    rep.count('expressions', len(done))
    rep.count('expressions made at run time (not judged)', skipped)


def lazy(w: World, rep):
    """LazyRE compiles its text with its flags wherever it compiles"""
    for c in w.ix.all_classes():
        init = c.methods.get('__init__') if hasattr(c, 'methods') else None
        if init is None:
            continue
        params = init.all_params()
        held = {}                                  # attribute -> parameter
        for n in own_nodes(init.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in params:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and dotted(t.value) == 'self':
                        held[t.attr] = n.value.id
        fl = next((a for a, p in held.items() if 'flags' in p), None)
        if fl is None:
            continue
        for f in list(c.methods.values()):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and dotted(n.func) == 're.compile' and n.args \
                        and (dotted(n.args[0]) or '').startswith('self.'):
                    rest = n.args[1:] + [k.value for k in n.keywords]
                    if any(dotted(x) == 'self.' + fl for x in rest) or rest and not isinstance(rest[0], ast.Constant):
                        rep.ok('flags')
                    else:
                        rep.violation('flags', f'{f.qual}:{unparse(n)}', f'{f.module.rel}:{n.lineno}',
                                      f'compiles the expression without the flags it was made with (self.{fl})')


def functions(w: World, rep) -> int:
    n = 0
    names = {f.name for f in w.funcs if id(f.node) in w.raw}
    todo: List[Tuple[Func, FrozenSet]] = [(f, frozenset()) for f in w.funcs
                                                if relevant(f, names)]
    seen: Set = set()
    while todo:
        f, start = todo.pop()
        if (id(f.node), start) in seen:
            continue
        seen.add((id(f.node), start))
        n += 1
        c = Matches(w, rep, f)
        Flow(c).run(f, [start])
        for g, key in c.repl:
            if isinstance(g, ast.Lambda):
                if len(g.args.args) == 1:
                    fake = ast.FunctionDef(name='<lambda>', args=g.args, body=[ast.copy_location(
                        ast.Return(value=g.body), g.body)], decorator_list=[], returns=None, type_comment=None)
                    ast.copy_location(fake, g)
                    ff = Func(fake, f.module, f.cls, f)
                    todo.append((ff, frozenset([(g.args.args[0].arg, ('M', key))])))
            else:
                ps = [p for p in g.params() if p != 'self']
                if ps:
                    todo.append((g, frozenset([(ps[0], ('M', key))])))
    return n


def check(ix, rep, tier):
    w = World(ix)
    expressions_of(w, rep)
    lazy(w, rep)
    n = 0
    while True:
        before = dict(w.raw)
        n = max(n, functions(w, rep))
        if w.raw == before:
            break
    rep.count('functions that use match objects', n)
    rep.floor('expressions', 60)
    rep.floor('functions that use match objects', 25)
