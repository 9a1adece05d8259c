"""Regular expressions as static objects: constant folding of patterns, groups, and ambiguity."""
from __future__ import annotations
import ast
import re
from typing import Dict, FrozenSet, Iterable, List, Optional, Set, Tuple

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:                                     # pragma: no cover
    import sre_parse                                    # type: ignore
    import sre_constants as sre_c                       # type: ignore

from .src import Index, Module, Func, Class, dotted, own_nodes

FLAGS = {k: int(getattr(re, k)) for k in ('A', 'ASCII', 'I', 'IGNORECASE', 'L', 'LOCALE', 'M', 'MULTILINE', 'S',
                                          'DOTALL', 'U', 'UNICODE', 'X', 'VERBOSE')}
MAXVALS = 64


# ---------------------------------------------------------------------------------------------------------------
# constant folding
# ---------------------------------------------------------------------------------------------------------------

class Fold:
    """the finite set of constant values an expression can have, or None"""

    def __init__(self, ix: Index):
        self.ix = ix
        self.busy: Set[int] = set()
        self.scopes: Dict[int, Dict[str, List]] = {}
        self.gl: Dict[int, Dict[str, int]] = {}

    def stores(self, f: Func) -> Dict[str, List]:
        """name -> assigned expressions (None: something that cannot be folded)"""
        key = id(f.node)
        if key in self.scopes:
            return self.scopes[key]
        d: Dict[str, List] = {}
        for p in f.all_params():
            d.setdefault(p, []).append(None)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        d.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) \
                            and len(t.elts) == len(n.value.elts) \
                            and not any(isinstance(x, ast.Starred) for x in t.elts + n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                d.setdefault(a.id, []).append(b)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                d.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                d.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.NamedExpr):
                d.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        simple = isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Tuple, ast.List))
                        d.setdefault(x.id, []).extend(n.iter.elts if simple else [None])
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                d.setdefault(n.target.id, []).append(None)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    if it.optional_vars is not None:
                        for x in ast.walk(it.optional_vars):
                            if isinstance(x, ast.Name):
                                d.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                d.setdefault(n.name, []).append(None)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    d.setdefault(x, []).append(None)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                d.setdefault(n.name, []).append(None)
        self.scopes[key] = d
        return d

    def global_stores(self, m: Module) -> Dict[str, int]:
        if id(m) not in self.gl:
            d: Dict[str, int] = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    for x in n.names:
                        d[x] = 99
            self.gl[id(m)] = d
        return self.gl[id(m)]

    def name(self, n: str, m: Module, f: Optional[Func], env) -> Tuple[List, Module, Optional[Func]]:
        """the expressions a name can stand for"""
        if env and n in env:
            return env[n], m, f
        g = f
        while g is not None:
            st = self.stores(g)
            if n in st:
                return ([], m, g) if any(v is None for v in st[n]) else (st[n], m, g)
            g = g.outer if isinstance(g.outer, Func) else None
        if f is not None and f.outer is None and f.cls is None and False:
            return [], m, f
        r = self.ix.resolve_global(m, n)
        if r:
            if n in self.global_stores(r[0]):
                return [], m, f
            return [r[1]], r[0], None
        return [], m, f

    def attr(self, e: ast.Attribute, m: Module, f: Optional[Func]):
        """self.X / cls.X / Class.X / module.X"""
        d = dotted(e.value)
        c = None
        if d in ('self', 'cls', 'self.__class__') and f is not None:
            g = f
            while g is not None and g.cls is None:
                g = g.outer if isinstance(g.outer, Func) else None
            c = g.cls if g is not None else None
        elif d and '.' not in d:
            c = self.ix.find_class(m, d)
        if c is not None:
            for k in self.ix.mro(c):
                for st in k.node.body:
                    if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.attr
                                                          for t in st.targets):
                        return st.value, k.module, None, k
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) \
                            and st.target.id == e.attr and st.value is not None:
                        return st.value, k.module, None, k
        return None

    def values(self, e: Optional[ast.expr], m: Module, f: Optional[Func] = None, env=None, cls: Class = None,
               depth=0) -> Optional[FrozenSet]:
        if e is None or depth > 12:
            return None
        key = id(e)
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            r = self._values(e, m, f, env, cls, depth + 1)
            return r if r is None or len(r) <= MAXVALS else None
        finally:
            self.busy.discard(key)

    def union(self, parts):
        res: Set = set()
        for p in parts:
            if p is None:
                return None
            res |= p
        return frozenset(res)

    def _values(self, e, m, f, env, cls, depth):
        V = lambda x, _env=None: self.values(x, m, f, env if _env is None else _env, cls, depth)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (str, bytes, int)) or e.value is None:
                return frozenset([e.value])
            return None
        if isinstance(e, ast.Name):
            if cls is not None:
                for st in cls.node.body:
                    if isinstance(st, (ast.Assign, ast.AnnAssign)):
                        ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                        if any(isinstance(t, ast.Name) and t.id == e.id for t in ts):
                            return V(st.value)
            exprs, m2, f2 = self.name(e.id, m, f, env)
            if not exprs:
                return None
            if env and e.id in env:
                return self.union(V(x) for x in exprs)
            return self.union(self.values(x, m2, f2, None, None, depth) for x in exprs)
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d and d.split('.')[0] == 're' and d.split('.')[-1] in FLAGS:
                return frozenset([FLAGS[d.split('.')[-1]]])
            r = self.attr(e, m, f)
            if r:
                return self.values(r[0], r[1], r[2], None, r[3], depth)
            return None
        if isinstance(e, ast.IfExp):
            return self.union([V(e.body), V(e.orelse)])
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            return self.union(V(x) for x in e.values)
        if isinstance(e, ast.BinOp):
            a, b = V(e.left), V(e.right)
            if a is None or b is None:
                if isinstance(e.op, ast.Mod) and a is not None and isinstance(e.right, ast.Tuple):
                    cols = [V(x) for x in e.right.elts]
                    if any(c is None or len(c) != 1 for c in cols):
                        return None
                    try:
                        return frozenset(x % tuple(next(iter(c)) for c in cols) for x in a)
                    except (TypeError, ValueError):
                        return None
                return None
            out = set()
            for x in a:
                for y in b:
                    try:
                        if isinstance(e.op, ast.Add) and type(x) is type(y):
                            out.add(x + y)
                        elif isinstance(e.op, ast.BitOr) and isinstance(x, int) and isinstance(y, int):
                            out.add(x | y)
                        elif isinstance(e.op, ast.Mod) and isinstance(x, (str, bytes)):
                            out.add(x % y)
                        elif isinstance(e.op, ast.Mult):
                            out.add(x * y)
                        else:
                            return None
                    except (TypeError, ValueError):
                        return None
            return frozenset(out)
        if isinstance(e, ast.JoinedStr):
            acc = {''}
            for p in e.values:
                if isinstance(p, ast.FormattedValue):
                    if p.format_spec is not None or p.conversion not in (-1, 115):
                        return None
                    v = V(p.value)
                else:
                    v = V(p)
                if v is None or any(not isinstance(x, (str, int)) for x in v):
                    return None
                acc = {a + str(x) for a in acc for x in v}
                if len(acc) > MAXVALS:
                    return None
            return frozenset(acc)
        if isinstance(e, ast.Call):
            fn = e.func
            d = dotted(fn)
            if d == 're.escape' and len(e.args) == 1:
                v = V(e.args[0])
                return None if v is None else frozenset(re.escape(x) for x in v if isinstance(x, (str, bytes)))
            if isinstance(fn, ast.Attribute):
                if fn.attr == 'format' and not any(isinstance(a, ast.Starred) for a in e.args) \
                        and all(k.arg for k in e.keywords):
                    base = V(fn.value)
                    args = [V(a) for a in e.args]
                    kws = {k.arg: V(k.value) for k in e.keywords}
                    if base is None or any(a is None or len(a) != 1 for a in args) \
                            or any(a is None or len(a) != 1 for a in kws.values()):
                        return None
                    try:
                        return frozenset(b.format(*[next(iter(a)) for a in args],
                                                  **{k: next(iter(a)) for k, a in kws.items()}) for b in base)
                    except (IndexError, KeyError, ValueError, AttributeError):
                        return None
                if fn.attr == 'join' and len(e.args) == 1:
                    base = V(fn.value)
                    items = self.sequence(e.args[0], m, f, env, cls, depth)
                    if base is None or items is None or len(base) != 1:
                        return None
                    sep = next(iter(base))
                    if any(i is None or len(i) != 1 for i in items):
                        return None
                    try:
                        return frozenset([sep.join(next(iter(i)) for i in items)])
                    except TypeError:
                        return None
                if fn.attr in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'encode', 'decode') and not e.args \
                        and not e.keywords:
                    base = V(fn.value)
                    if base is None:
                        return None
                    try:
                        return frozenset(getattr(b, fn.attr)() for b in base)
                    except AttributeError:
                        return None
                if fn.attr == 'replace' and len(e.args) == 2:
                    base, a, b = V(fn.value), V(e.args[0]), V(e.args[1])
                    if base is None or a is None or b is None:
                        return None
                    try:
                        return frozenset(x.replace(y, z) for x in base for y in a for z in b)
                    except (AttributeError, TypeError):
                        return None
            return None
        return None

    def sequence(self, e, m, f, env, cls, depth) -> Optional[List]:
        """the element values of a literal sequence, in order"""
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return None
            return [self.values(x, m, f, env, cls, depth) for x in e.elts]
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)) and len(e.generators) == 1 \
                and not e.generators[0].ifs and isinstance(e.generators[0].target, ast.Name):
            src = self.literal(e.generators[0].iter, m, f)
            if src is None:
                return None
            return [self.values(e.elt, m, f, {**(env or {}), e.generators[0].target.id: [x]}, cls, depth)
                    for x in src]
        if isinstance(e, ast.Name):
            lit = self.literal(e, m, f)
            if lit is not None:
                exprs, m2, f2 = self.name(e.id, m, f, env)
                return [self.values(x, m2, f2, None, None, depth) for x in lit]
        return None

    def literal(self, e, m, f) -> Optional[List[ast.expr]]:
        if isinstance(e, (ast.Tuple, ast.List)):
            return None if any(isinstance(x, ast.Starred) for x in e.elts) else e.elts
        if isinstance(e, ast.Name):
            exprs, m2, f2 = self.name(e.id, m, f, None)
            if len(exprs) == 1:
                return self.literal(exprs[0], m2, f2)
        return None


# ---------------------------------------------------------------------------------------------------------------
# one regular expression
# ---------------------------------------------------------------------------------------------------------------

class Rx:
    cache: Dict = {}

    def __new__(cls, pattern, flags=0):
        key = (pattern, flags)
        if key not in cls.cache:
            o = object.__new__(cls)
            o._init(pattern, flags)
            cls.cache[key] = o
        return cls.cache[key]

    def _init(self, pattern, flags):
        self.pattern, self.flags, self.error, self.tree = pattern, flags, None, None
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.tree = sre_parse.parse(pattern, flags)
                re.compile(pattern, flags)
        except (re.error, OverflowError, RecursionError, ValueError) as ex:
            self.error = str(ex)
            return
        st = self.tree.state
        self.ngroups = st.groups - 1
        self.names: Dict[str, int] = dict(st.groupdict)
        self.mandatory = self._mand(self.tree)

    def __repr__(self):
        return f'/{self.pattern!r}/'

    def has(self, g) -> bool:
        return g in self.names if isinstance(g, str) else 0 <= g <= self.ngroups

    def number(self, g) -> int:
        return self.names[g] if isinstance(g, str) else g

    def optional(self, g) -> bool:
        """can the group be unset although the expression matched?"""
        n = self.number(g)
        return n != 0 and n not in self.mandatory

    def _mand(self, seq) -> Set[int]:
        res: Set[int] = set()
        for op, av in seq:
            if op is sre_c.SUBPATTERN:
                g, _, _, p = av
                if g is not None:
                    res.add(g)
                res |= self._mand(p)
            elif op is sre_c.BRANCH:
                alts = [self._mand(p) for p in av[1]]
                res |= set.intersection(*alts) if alts else set()
            elif op in REPEATS:
                if av[0] > 0:
                    res |= self._mand(av[2])
            elif op is sre_c.ASSERT:
                res |= self._mand(av[1])
            elif op is getattr(sre_c, 'ATOMIC_GROUP', None):
                res |= self._mand(av)
        return res

    def counts(self) -> Set[int]:
        """the possible numbers of groups that take part in a match"""
        def seq(s):
            acc = {frozenset()}
            for op, av in s:
                alts = one(op, av)
                acc = {a | b for a in acc for b in alts}
                if len(acc) > 200:
                    raise OverflowError
            return acc

        def one(op, av):
            if op is sre_c.SUBPATTERN:
                g, _, _, p = av
                return {x | ({g} if g is not None else frozenset()) for x in seq(p)}
            if op is sre_c.BRANCH:
                return set().union(*[seq(p) for p in av[1]])
            if op in REPEATS:
                inner = seq(av[2])
                if av[1] > 1:                     # several rounds may set different groups
                    rounds = set(inner)
                    for _ in range(3):
                        rounds |= {a | b for a in rounds for b in inner}
                    inner = rounds
                return inner | ({frozenset()} if av[0] == 0 else set())
            if op is sre_c.ASSERT:
                return seq(av[1])
            if op is getattr(sre_c, 'ATOMIC_GROUP', None):
                return seq(av)
            return {frozenset()}
        try:
            return {len(x) for x in seq(self.tree)}
        except OverflowError:
            return set()

    def can_be_empty(self) -> bool:
        return self.tree.getwidth()[0] == 0

    # -- ambiguity -----------------------------------------------------------------------------------------------

    def exponential(self) -> Optional[str]:
        """a loop some text of which can be matched in exponentially many ways, or None"""
        try:
            return Ambiguity(self).search()
        except TooComplex:
            return None


REPEATS = {x for x in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT, getattr(sre_c, 'POSSESSIVE_REPEAT', None)) if x is not None}
POSSESSIVE = getattr(sre_c, 'POSSESSIVE_REPEAT', None)
ATOMIC = getattr(sre_c, 'ATOMIC_GROUP', None)


class TooComplex(Exception):
    pass


# the alphabet is cut into classes by probing representatives: every character a pattern mentions, its
# neighbours, and one member of each kind
BASE = [chr(c) for c in range(0, 128)] + ['\x85', '\xa0', '\xb2', '\xe4', '\u0663', '\u4e2d', '\u2003', '\u20ac', '\U0001f600']


def category(name: str, ch: str) -> bool:
    digit, space, word = ch.isdecimal(), ch.isspace(), ch.isalnum() or ch == '_'
    return {'CATEGORY_DIGIT': digit, 'CATEGORY_NOT_DIGIT': not digit, 'CATEGORY_SPACE': space,
            'CATEGORY_NOT_SPACE': not space, 'CATEGORY_WORD': word, 'CATEGORY_NOT_WORD': not word}[name]


class Ambiguity:
    """Thompson automaton of the expression with the loops that are not bounded.  A state q lies on an
    exponentially ambiguous loop iff some text w can lead from q back to q along two different paths."""

    def __init__(self, rx: Rx):
        self.rx = rx
        self.ign = bool(rx.tree.state.flags & re.IGNORECASE)
        self.dotall = bool(rx.tree.state.flags & re.DOTALL)
        chars = set(BASE)
        for c in self.literals(rx.tree):
            for k in (c - 1, c, c + 1):
                if 0 <= k < 0x110000 and not 0xd800 <= k < 0xe000:
                    chars.add(chr(k))
        self.chars = sorted(chars)
        self.trans: List[List[Tuple[FrozenSet[str], int]]] = []   # consuming edges
        self.eps: List[List[int]] = []
        self.loops: List[Tuple[int, int]] = []
        self.classes: Dict = {}
        self.start = self.new()
        self.end = self.build(rx.tree, self.start)

    def new(self) -> int:
        if len(self.eps) > 1500:
            raise TooComplex
        self.trans.append([])
        self.eps.append([])
        return len(self.eps) - 1

    def literals(self, seq):
        for op, av in seq:
            if op in (sre_c.LITERAL, sre_c.NOT_LITERAL):
                yield av
            elif op is sre_c.IN:
                for o, a in av:
                    if o is sre_c.LITERAL:
                        yield a
                    elif o is sre_c.RANGE:
                        yield from a
            elif op is sre_c.SUBPATTERN:
                yield from self.literals(av[3])
            elif op is sre_c.BRANCH:
                for p in av[1]:
                    yield from self.literals(p)
            elif op in REPEATS:
                yield from self.literals(av[2])
            elif op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
                yield from self.literals(av[1])
            elif op is ATOMIC:
                yield from self.literals(av)

    def charset(self, op, av) -> FrozenSet[str]:
        key = (op, str(av))
        if key in self.classes:
            return self.classes[key]

        def lit(ch, c):
            return ch == chr(c) or (self.ign and ch.lower() == chr(c).lower())

        def inset(ch, items):
            neg = False
            hit = False
            for o, a in items:
                if o is sre_c.NEGATE:
                    neg = True
                elif o is sre_c.LITERAL:
                    hit = hit or lit(ch, a)
                elif o is sre_c.RANGE:
                    hit = hit or a[0] <= ord(ch) <= a[1] or (self.ign and (a[0] <= ord(ch.lower()[0]) <= a[1]
                                                                          or a[0] <= ord(ch.upper()[0]) <= a[1]))
                elif o is sre_c.CATEGORY:
                    hit = hit or category(str(a), ch)
            return hit != neg
        if op is sre_c.LITERAL:
            r = frozenset(c for c in self.chars if lit(c, av))
        elif op is sre_c.NOT_LITERAL:
            r = frozenset(c for c in self.chars if not lit(c, av))
        elif op is sre_c.ANY:
            r = frozenset(c for c in self.chars if self.dotall or c != '\n')
        elif op is sre_c.CATEGORY:
            r = frozenset(c for c in self.chars if category(str(av), c))
        else:
            r = frozenset(c for c in self.chars if inset(c, av))
        self.classes[key] = r
        return r

    def build(self, seq, s: int) -> int:
        """guards (look-ahead, anchors) are kept as restrictions of the next or the previous character where
        they are one character wide, and are otherwise over-approximated by 'holds' - what is found is then checked
        not to pass through such a guard"""
        items = list(seq)
        for op, av in items:
            s = self.one(op, av, s)
        return s

    def one(self, op, av, s: int) -> int:
        if op in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN, sre_c.CATEGORY):
            t = self.new()
            self.trans[s].append((self.charset(op, av), t))
            return t
        if op is sre_c.SUBPATTERN:
            return self.build(av[3], s)
        if op is sre_c.BRANCH:
            t = self.new()
            for p in av[1]:
                a = self.new()
                self.eps[s].append((a, None))
                self.eps[self.build(p, a)].append((t, None))
            return t
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, body = av
            if body.getwidth()[1] == 0:
                return s
            n = min(lo, 3)
            for _ in range(n):
                s = self.build(body, s)
            if hi is sre_c.MAXREPEAT or hi > 10 + lo:
                loop = len(self.eps)
                a = self.new()
                self.eps[s].append((a, ('enter', loop)))
                b = self.build(body, a)
                self.eps[b].append((a, ('again', loop)))
                t = self.new()
                self.eps[s].append((t, None))
                self.eps[b].append((t, ('leave', loop)))
                return t
            ends = [s]
            for _ in range(min(hi - lo, 3)):
                s = self.build(body, s)
                ends.append(s)
            t = self.new()
            for x in ends:
                self.eps[x].append((t, None))
            return t
        if op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            direction, p = av
            g = None
            cs = self.single(p)
            if cs is not None:
                g = ('next' if direction > 0 else 'prev', cs if op is sre_c.ASSERT else
                     frozenset(self.chars) - cs)
            elif direction > 0:
                fs = self.first(p)
                if op is sre_c.ASSERT and fs is not None:
                    g = ('next', fs)
                else:
                    g = ('opaque', None)
            else:
                g = ('opaque', None)
            t = self.new()
            self.eps[s].append((t, g))
            return t
        if op is sre_c.AT:
            nm = str(av)
            word = frozenset(c for c in self.chars if c.isalnum() or c == '_')
            g = ('opaque', None)
            if nm in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
                g = (nm, word)
            elif nm in ('AT_BEGINNING_STRING', 'AT_END_STRING') or not self.rx.flags & re.MULTILINE:
                g = ('never', None)               # not inside a loop that consumes something
                if nm == 'AT_END':
                    g = ('next', frozenset('\n'))
            t = self.new()
            self.eps[s].append((t, g))
            return t
        t = self.new()
        self.eps[s].append((t, ('opaque', None)))   # back references, conditionals, atomic groups: not entered
        return t

    def single(self, p) -> Optional[FrozenSet[str]]:
        items = list(p)
        if len(items) == 1:
            op, av = items[0]
            if op in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN, sre_c.CATEGORY):
                return self.charset(op, av)
            if op is sre_c.SUBPATTERN:
                return self.single(av[3])
            if op is sre_c.BRANCH:
                r = [self.single(x) for x in av[1]]
                return None if any(x is None for x in r) else frozenset().union(*r)
        return None

    def first(self, p) -> Optional[FrozenSet[str]]:
        items = list(p)
        if items and p.getwidth()[0] > 0:
            op, av = items[0]
            if op in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN, sre_c.CATEGORY):
                return self.charset(op, av)
            if op is sre_c.SUBPATTERN and av[3].getwidth()[0] > 0:
                return self.first(av[3])
            if op in REPEATS and av[0] > 0:
                return self.first(av[2])
        return None

    # position automaton: the nodes are the consuming edges; from one edge to the next there may be several silent
    # paths with guards

    def search(self) -> Optional[str]:
        edges = []                                 # (chars, target)
        outof: Dict[int, List[int]] = {}
        for s, lst in enumerate(self.trans):
            for cs, t in lst:
                outof.setdefault(s, []).append(len(edges))
                edges.append((cs, t))
        allc = frozenset(self.chars)

        # places where, whatever follows, the expression as a whole has matched: a search that has come to such a
        # place ends there at the latest, so that no loop through it is explored twice
        safe: Set[int] = set()
        into: Dict[int, List[int]] = {}
        for x, lst in enumerate(self.eps):
            for y, g in lst:
                if g is None or g[0] in ('enter', 'again', 'leave'):
                    into.setdefault(y, []).append(x)
        todo = [self.end]
        while todo:
            x = todo.pop()
            if x not in safe:
                safe.add(x)
                todo += into.get(x, ())

        def follow(s):
            """edge -> list of (prev, next) restrictions, one per silent path"""
            res: Dict[int, List] = {}

            budget = [20000]

            def rec(x, prev, nxt, fresh):
                # fresh: loops that were entered on this path; a round through them has to read something
                budget[0] -= 1
                if budget[0] < 0:
                    raise TooComplex
                if x in safe:
                    return
                for k in outof.get(x, ()):
                    b = nxt & edges[k][0]
                    if b and prev:
                        res.setdefault(k, []).append((prev, b))
                for y, g in self.eps[x]:
                    if g is None:
                        rec(y, prev, nxt, fresh)
                    elif g[0] == 'enter':
                        rec(y, prev, nxt, fresh | {g[1]})
                    elif g[0] in ('again', 'leave'):
                        if g[1] not in fresh:
                            rec(y, prev, nxt, fresh | {g[1]} if g[0] == 'again' else fresh)
                    elif g[0] == 'next':
                        rec(y, prev, nxt & g[1], fresh)
                    elif g[0] == 'prev':
                        rec(y, prev & g[1], nxt, fresh)
                    elif g[0] == 'AT_BOUNDARY':
                        rec(y, prev & g[1], nxt - g[1], fresh)
                        rec(y, prev - g[1], nxt & g[1], fresh)
                    elif g[0] == 'AT_NON_BOUNDARY':
                        rec(y, prev & g[1], nxt & g[1], fresh)
                        rec(y, prev - g[1], nxt - g[1], fresh)
                    # 'opaque' and 'never': no ambiguity is claimed through them
            rec(s, allc, allc, frozenset())
            return res
        succ = []
        for cs, t in edges:
            succ.append({k: [(p & cs, b) for p, b in v if p & cs] for k, v in follow(t).items()})
            succ[-1] = {k: v for k, v in succ[-1].items() if v}
        if len(edges) > 220:
            raise TooComplex
        # product: pairs of positions; an edge (p,q) -> (p2,q2) on a character both can read
        # two different silent paths from p to the same p2 (with overlapping restrictions) are a difference, too
        comp = scc(range(len(edges)), lambda i: succ[i])
        inloop = {i for i in range(len(edges)) if any(comp[j] == comp[i] for j in succ[i])}
        for i in inloop:
            for j, ways in succ[i].items():
                if comp[j] == comp[i]:
                    for a in range(len(ways)):
                        for b in range(a):
                            if ways[a][0] & ways[b][0] and ways[a][1] & ways[b][1]:
                                return self.show(ways[a][1] & ways[b][1])

        def nxt(pair):
            p, q = pair
            for p2, w1 in succ[p].items():
                if comp[p2] != comp[p]:
                    continue
                for q2, w2 in succ[q].items():
                    if comp[q2] != comp[q]:
                        continue
                    if any(a[0] & b[0] and a[1] & b[1] for a in w1 for b in w2):
                        yield p2, q2
        byc: Dict[int, List[int]] = {}
        for i in inloop:
            byc.setdefault(comp[i], []).append(i)
        for members in byc.values():
            pairs = [(p, q) for p in members for q in members if edges[p][0] & edges[q][0]]
            if len(pairs) > 20000:
                raise TooComplex
            ps = set(pairs)
            pc = scc(pairs, lambda x: [y for y in nxt(x) if y in ps])
            diag = {pc[(p, p)] for p in members if (p, p) in pc}
            for p, q in pairs:
                if p != q and pc[(p, q)] in diag:
                    return self.show(edges[p][0] & edges[q][0])
        return None

    @staticmethod
    def show(cs) -> str:
        best = sorted(cs, key=lambda c: (not c.isalnum(), not c.isprintable(), c))
        return repr(best[0])


def scc(nodes, succ) -> Dict:
    index: Dict = {}
    low: Dict = {}
    comp: Dict = {}
    stack: List = []
    on: Set = set()
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(list(succ(root))))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(list(succ(w)))))
                    adv = True
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                while True:
                    w = stack.pop()
                    on.discard(w)
                    comp[w] = v
                    if w == v:
                        break
    return comp
