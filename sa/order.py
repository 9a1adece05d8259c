"""Order and identity taint: which values depend on the iteration order of sets, on object identities, on the clock
or on the order of directory entries.

Abstract values V(flags, elem, fn):
  S  unordered container (set, frozenset, dictionary filled from one)
  U  sequence, iterator or text whose order is arbitrary
  A  arbitrary value: picked from an unordered container, or dependent on a run
  I  identity: id(), hash()
  E  depends on the element of the loop over an unordered container that is running (becomes A after the loop)
  N  created inside the innermost running unordered loop

Functions are interpreted structurally (environments joined at branches, loops twice); package functions are entered
with the flags of the arguments; effects inside loops over unordered containers are judged by whether they commute."""
from __future__ import annotations
import ast
from typing import Dict, Optional, Tuple

from .src import Index, Func, FUNC, dotted, nested_funcs, unparse

SETN = {'Set', 'AbstractSet', 'FrozenSet', 'MutableSet', 'set', 'frozenset'}
DICTN = {'Dict', 'dict', 'Mapping', 'MutableMapping', 'OrderedDict', 'defaultdict', 'DefaultDict', 'ChainMap'}
SEQN = {'List', 'Tuple', 'Sequence', 'Iterable', 'Iterator', 'Generator', 'list', 'tuple', 'Collection', 'Deque', 'deque'}


class V:
    __slots__ = ('f', 'e', 'fn', 'w')

    def __init__(self, f=frozenset(), e=None, fn=(), w=None):
        self.f, self.e, self.fn, self.w = frozenset(f), e, fn, w

    def __eq__(self, o):
        return isinstance(o, V) and self.f == o.f and self.e == o.e and len(self.fn) == len(o.fn)

    def __hash__(self):
        return hash((self.f, self.e))

    def __repr__(self):
        return ''.join(sorted(self.f)) + (f'<{self.e!r}>' if self.e is not None else '')

    def with_(self, *fl):
        return V(self.f | set(fl), self.e, self.fn, self.w)

    def without(self, fl):
        return V(self.f - set(fl), self.e, self.fn, self.w) if self.f & set(fl) else self


CLEAN = V()


def join(a: V, b: V, d=0) -> V:
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    f = a.f | b.f
    if ('N' in a.f) != ('N' in b.f):
        f -= {'N'}
    e = None
    if d < 3:
        e = join(a.e, b.e, d + 1) if a.e is not None or b.e is not None else None
    fn = a.fn + tuple(x for x in b.fn if all(x[0] is not y[0] for y in a.fn))
    return V(f, e, fn, a.w or b.w)


def deep(v: Optional[V], fl: str, d=0) -> bool:
    return v is not None and (bool(v.f & set(fl)) or d < 3 and deep(v.e, fl, d + 1))


def settle(v: V, d=0) -> V:
    """values that depend on the element are arbitrary after the loop"""
    if v is None or d > 3:
        return v
    f = v.f - {'N'}
    f = f - {'E', 'A', 'I'}
    return V(f, settle(v.e, d + 1), v.fn, v.w)


class Env(dict):
    """variables; parent: variables of the enclosing function"""

    def __init__(self, d=(), parent=None):
        super().__init__(d)
        self.parent = parent
        self.nonlocals = set()
        self.own = set()
        self.left = False       # the variables where a break leaves the loop

    def get_(self, name):
        e = self
        while e is not None:
            if name in e:
                return e[name]
            e = e.parent
        return None

    def holder(self, name):
        e = self
        while e is not None:
            if name in e:
                return e
            e = e.parent
        return None

    def copy_(self):
        n = Env(self, self.parent)
        n.nonlocals, n.own = self.nonlocals, self.own
        return n


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = a.copy_()
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        r[k] = join(x, y) if x is not None and y is not None else (x or y)
    return r


class Frame:
    def __init__(self, func: Func, node, cls, arb):
        self.func, self.node, self.cls = func, node, cls
        self.ret = None
        self.outer = None
        self.base = arb         # entered from inside a loop over something unordered
        self.loops = []         # loops over unordered things running in this frame
        self.consts = None
        self.brk = []
        self.once = 0           # the same in a branch that leaves the loop
        self.guards = 0         # inside a branch that looks for one particular element

    @property
    def arb(self):
        return bool(self.base or self.loops)

    @property
    def inner(self):
        """the same for functions called from here: how many calls the loop is away (0: none, or far away)"""
        return 1 if self.loops else self.base + 1 if 0 < self.base < 4 else 0


COPYING = {'copy', 'deepcopy', 'cast', 'OrderedDict', 'defaultdict', 'ChainMap'}
TO_SEQ = {'list', 'tuple', 'iter', 'reversed', 'deque', 'chain', 'from_iterable', 'islice', 'cycle', 'List', 'Tuple'}
INSENSITIVE = {'len', 'any', 'all', 'sum', 'bool', 'isinstance', 'issubclass', 'callable', 'hasattr', 'print_', 'type',
               'count'}
LISTMUT = {'append', 'extend', 'insert', 'appendleft', 'extendleft', 'write', 'writelines', 'put', 'put_nowait'}
SETMUT = {'add', 'discard', 'update', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference'}
TEXT = {'format', 'repr', 'str', 'ascii', 'format_map', 'dumps', 'dump', 'print', 'write', 'pformat', 'hexdigest'}
UNORDERED_CALLS = {'listdir', 'scandir', 'iterdir', 'glob', 'iglob', 'rglob', 'walk', 'as_completed', 'wait'}
CLOCK = {'time.time', 'time.time_ns', 'time.monotonic', 'time.perf_counter', 'time.strftime', 'time.localtime',
         'time.gmtime', 'datetime.now', 'datetime.utcnow', 'datetime.today', 'datetime.datetime.now', 'date.today',
         'datetime.date.today', 'uuid.uuid4', 'uuid.uuid1', 'uuid4', 'uuid1', 'os.urandom', 'time.ctime', 'time.asctime',
         'perf_counter', 'monotonic', 'time_ns'}
CLOCK_NAMES = {'ctime', 'asctime', 'localtime', 'gmtime', 'utcnow', 'now', 'time_ns', 'monotonic', 'perf_counter', 'uuid4',
               'uuid1', 'urandom', 'strftime'}


class Order:
    def __init__(self, ix: Index, pardon=lambda kind, func, expr: False, attr_types=(), mixed=()):
        """mixed: global dictionaries of which only some values are unordered"""
        self.mixed = set(mixed)
        self.ix = ix
        self.pardon = pardon
        self.attr: Dict[Tuple[str, str], V] = {}
        self.glob: Dict[Tuple[str, str], V] = {}
        self.ret: Dict[tuple, V] = {}
        self.active = set()
        self.found = {}
        self.stack = []
        self.report = False
        self.changed = False
        self.counts = {'unordered_loops': 0, 'functions': 0}
        self.loops_seen = set()
        self.ann_cache = {}
        self.lookups = set()
        self.setters = None
        self.alias = None
        self.owners: Dict[str, set] = {}
        self.attr_types = dict(attr_types)
        for c in ix.all_classes():
            for n in ast.walk(c.node):
                if isinstance(n, ast.AnnAssign):
                    a = n.target.attr if isinstance(n.target, ast.Attribute) and dotted(n.target.value) == 'self' else \
                        n.target.id if isinstance(n.target, ast.Name) and n in c.node.body else None
                    if a:
                        self.set_attr(c.name, a, self.ann(n.annotation), init=True)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and dotted(n.value) == 'self':
                    self.owners.setdefault(n.attr, set()).add(c.name)
                if isinstance(n, ast.Assign) and n in c.node.body:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            self.owners.setdefault(t.id, set()).add(c.name)
        for m in ix.modules.values():
            for st in m.tree.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    self.glob[(m.name, st.target.id)] = self.ann(st.annotation)

    # -- annotations -------------------------------------------------------------------------

    def ann(self, a, d=0) -> V:
        if a is None or d > 4:
            return CLEAN
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return CLEAN
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self.union([a.left, a.right], d)
        if isinstance(a, (ast.Name, ast.Attribute)):
            n = dotted(a)
            n = n.split('.')[-1] if n else ''
            if n in SETN:
                return V('S')
            for m in self.ix.modules.values():
                v = m.globals.get(n)
                if isinstance(v, (ast.Subscript, ast.BinOp)) and n[:1].isupper() and d < 3:
                    return self.ann(v, d + 1)
            return CLEAN
        if isinstance(a, ast.Subscript):
            n = dotted(a.value)
            n = n.split('.')[-1] if n else ''
            args = list(a.slice.elts) if isinstance(a.slice, ast.Tuple) else [a.slice]
            if n == 'Optional':
                return self.ann(args[0], d + 1)
            if n == 'Union':
                return self.union(args, d)
            if n in SETN:
                return V('S', self.elem(self.ann(args[0], d + 1)))
            if n in DICTN and len(args) == 2:
                return V((), self.elem(self.ann(args[1], d + 1)))
            if n in SEQN:
                r = CLEAN
                for x in args:
                    if not (isinstance(x, ast.Constant) and x.value is Ellipsis):
                        r = join(r, self.ann(x, d + 1))
                return V((), self.elem(r))
        return CLEAN

    def union(self, args, d):
        args = [x for x in args if not (isinstance(x, ast.Constant) and x.value is None)]
        vs = [self.ann(x, d + 1) for x in args]
        r = vs[0] if vs else CLEAN
        for v in vs[1:]:
            r = join(r, v)
        return r if all('S' in v.f for v in vs) else V(r.f - {'S'}, r.e)

    def elem(self, v: V):
        return v if v is not None and (v.f or v.e is not None) else None

    # -- tables ------------------------------------------------------------------------------

    def set_attr(self, cname, attr, v: V, init=False):
        self.owners.setdefault(attr, set()).add(cname)
        v = V(v.f & {'S', 'U'}, v.e if init else None, (), v.w)
        old = self.attr.get((cname, attr))
        new = join(old, v) if old is not None else v
        if old is None or new != old:
            self.attr[(cname, attr)] = new
            if not init:
                self.changed = True

    def get_attr(self, cnames, attr) -> V:
        r = None
        for c in cnames:
            v = self.attr.get((c, attr))
            if v is not None:
                r = join(r, v) if r is not None else v
        return r if r is not None else CLEAN

    def family(self, cls):
        return [c.name for c in self.ix.mro(cls)] + [c.name for c in self.ix.subclasses(cls, strict=True)]

    def classes_of(self, e, fr: Frame):
        """names of the classes a receiver may belong to; None: unknown"""
        d = dotted(e)
        if d in ('self', 'cls') and fr.cls is not None:
            return self.family(fr.cls)
        if isinstance(e, ast.Call) and dotted(e.func) == 'cast' and e.args:
            x = e.args[0]
            n = x.value if isinstance(x, ast.Constant) else dotted(x)
            if isinstance(n, str):
                c = self.ix.find_class(fr.func.module, n)
                return self.family(c) if c else None
        if isinstance(e, ast.Attribute):
            t = self.attr_types.get(e.attr)
            if t:
                for n in ([t] if isinstance(t, str) else t):
                    for m in self.ix.modules.values():
                        if n in m.classes:
                            return self.family(m.classes[n])
        if isinstance(e, ast.Name):
            n = self.var_type(e.id, fr)
            if n:
                c = self.ix.find_class(fr.func.module, n)
                if c is not None:
                    return self.family(c)
        return None

    def var_type(self, name, fr: Frame):
        a = fr.node.args if isinstance(fr.node, FUNC) else None
        for x in (a.posonlyargs + a.args + a.kwonlyargs if a else ()):
            if x.arg == name and x.annotation is not None:
                t = x.annotation
                if isinstance(t, ast.Constant) and isinstance(t.value, str):
                    return t.value
                if isinstance(t, ast.Subscript) and dotted(t.value) == 'Optional':
                    t = t.slice
                d = dotted(t)
                return d.split('.')[-1] if d else None
        return None

    # -- findings ----------------------------------------------------------------------------

    def hit(self, kind, fr: Frame, node, what):
        if not self.report:
            return
        what0 = what
        if fr.base and not fr.loops and kind in ('order-of-effects', 'last-one-wins'):
            for cf, call in reversed(self.stack):
                if cf.loops:
                    if self.pardon(kind, fr.func, unparse(node)):
                        return
                    fr, node, what = cf, call, f'{what0} by {fr.func.qual}, called in a loop over {cf.loops[-1]["text"]}'
                    break
        if self.pardon(kind, fr.func, unparse(node)):
            return
        self.found.setdefault((kind, fr.func.qual, unparse(node, 60)), (fr.func, node, what))

    # -- functions ---------------------------------------------------------------------------

    def run(self, rounds=6):
        ix = self.ix
        funcs = list(ix.all_functions())
        for r in range(rounds):
            self.changed = False
            self.ret_seen = {}
            self.memo = {}
            for f in funcs:
                self.entry(f)
            for m in ix.modules.values():
                self.module_level(m)
            if not self.changed:
                break
        self.report = True
        self.memo = {}
        self.counts = {'unordered_loops': 0, 'functions': len(funcs)}
        self.loops_seen = set()
        for f in funcs:
            self.entry(f)
        for m in ix.modules.values():
            self.module_level(m)
        self.counts['unordered_loops'] = len(self.loops_seen)
        return self.found

    def module_level(self, m):
        f = Func.__new__(Func)
        node = ast.FunctionDef(name='<module>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                                                  defaults=[], vararg=None, kwarg=None),
                               body=m.tree.body, decorator_list=[], returns=None, lineno=1)
        f = Func(node, m)
        fr = Frame(f, node, None, False)
        env = Env()
        self.block([s for s in m.tree.body if not isinstance(s, FUNC + (ast.ClassDef,))], env, fr)
        for k, v in env.items():
            v = V(v.f & {'S', 'U'}, v.e if k not in self.mixed else None)
            old = self.glob.get((m.name, k))
            new = join(old, v) if old is not None else v
            if new != old:
                self.glob[(m.name, k)] = new
                self.changed = True

    def entry(self, f: Func):
        self.call_func(f, None, 0)

    def bind(self, declared: V, v: V):
        if v is CLEAN or v == CLEAN:
            return declared
        r = join(declared, v)
        return r.with_('N') if 'N' in v.f else r

    def params(self, node, f):
        a = node.args
        return a.posonlyargs + a.args, a.kwonlyargs, a.vararg, a.kwarg

    def call_func(self, f: Func, args, arb, extra=None):
        """args: None (entry) or (list of V, dict of V)"""
        pos, kwo, va, ka = self.params(f.node, f)
        env = Env()
        names = [p.arg for p in pos + kwo]
        for p in pos + kwo:
            env[p.arg] = self.ann(p.annotation)
        fl = []
        has_fn = False
        if args is not None:
            off = 1 if f.cls is not None and not f.is_static and pos else 0
            al = list(args[0])
            if off and len(al) < len(pos) + 1 and args[0] is not None:
                al = [args[2] if len(args) > 2 else CLEAN] + al
            for p, v in zip(pos, al):
                env[p.arg] = self.bind(env[p.arg], v)
            for k, v in args[1].items():
                if k in env:
                    env[k] = self.bind(env[k], v)
            for n in names:
                fl.append((env[n].f, env[n].e))
                has_fn = has_fn or bool(env[n].fn)
        if va is not None:
            env[va.arg] = CLEAN
        if ka is not None:
            env[ka.arg] = CLEAN
        key = (id(f.node), arb, tuple(fl)) if args is not None else (id(f.node), arb, None)
        gk = (id(f.node), arb)
        if key in self.memo and not has_fn:
            return self.memo[key]
        if gk in self.active or len(self.active) > 14:
            return self.ret.get(gk, self.ret.get((id(f.node), False), CLEAN))
        self.active.add(gk)
        try:
            fr = Frame(f, f.node, f.cls, arb)
            env.own = set(names)
            self.block(f.node.body, env, fr)
        finally:
            self.active.discard(gk)
        r = fr.ret if fr.ret is not None else CLEAN
        annv = self.ann(f.node.returns)
        if 'S' in annv.f:
            r = V((r.f - {'U'}) | {'S'}, join(r.e, annv.e) if r.e is not None or annv.e is not None else None, r.fn, r.w)
        elif annv.f or annv.e is not None:
            r = join(r, annv)
        out = {n: env.get(n) for n in names}
        res = r
        old = self.ret.get(gk)
        new = join(old, V(r.f, r.e)) if old is not None else V(r.f, r.e)
        if new != old:
            self.ret[gk] = new
            self.changed = True
        self.memo[key] = res
        self.outs = getattr(self, 'outs', {})
        self.outs[key] = out
        return res

    def call_nested(self, fnode, env: Env, fr: Frame, args, kwargs, arb, caller: Frame):
        gk = (id(fnode), arb)
        if gk in self.active or len(self.active) > 14:
            return self.ret.get((id(fnode), arb), CLEAN)
        self.active.add(gk)
        try:
            child = Env({}, env)
            a = fnode.args
            ps = a.posonlyargs + a.args
            for p in ps + a.kwonlyargs:
                child[p.arg] = self.ann(p.annotation)
            for p, v in zip(ps, args):
                child[p.arg] = self.bind(child[p.arg], v)
            for k, v in kwargs.items():
                if k in child:
                    child[k] = self.bind(child[k], v)
            child.own = set(child)
            for n in ast.walk(fnode):
                if isinstance(n, (ast.Nonlocal, ast.Global)):
                    child.nonlocals |= set(n.names)
            nf = Frame(fr.func, fnode, fr.cls, arb)
            nf.outer = fr
            if isinstance(fnode, ast.Lambda):
                r = self.ev(fnode.body, child, nf)
            else:
                self.block(fnode.body, child, nf)
                r = nf.ret if nf.ret is not None else CLEAN
                an = self.ann(fnode.returns)
                if 'S' in an.f:
                    r = V((r.f - {'U'}) | {'S'}, r.e)
            old = self.ret.get((id(fnode), arb))
            new = join(old, V(r.f, r.e)) if old is not None else V(r.f, r.e)
            if new != old:
                self.ret[(id(fnode), arb)] = new
                self.changed = True
            return r
        finally:
            self.active.discard(gk)

    # -- statements --------------------------------------------------------------------------

    def block(self, body, env: Optional[Env], fr: Frame):
        for st in body:
            env = self.stmt(st, env, fr)
            if env is None:
                return None
        return env

    def merge_into(self, env: Env, res: Optional[Env]):
        if res is None:
            return None
        if res is not env:
            for k in list(env):
                if k not in res:
                    del env[k]
            env.update(res)
        return env

    def stmt(self, st, env: Env, fr: Frame):
        if isinstance(st, ast.Expr):
            self.ev(st.value, env, fr)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value, env, fr)
            for t in st.targets:
                self.assign(t, v, env, fr, st)
        elif isinstance(st, ast.AnnAssign):
            a = self.ann(st.annotation)
            if st.value is not None:
                v = self.ev(st.value, env, fr)
                self.assign(st.target, join(v, a) if 'U' not in v.f or 'S' not in a.f else v, env, fr, st)
            elif isinstance(st.target, ast.Name):
                env[st.target.id] = a
        elif isinstance(st, ast.AugAssign):
            self.augassign(st, env, fr)
        elif isinstance(st, ast.Return):
            v = self.ev(st.value, env, fr) if st.value is not None else CLEAN
            self.returned(v, st, fr)
            return None
        elif isinstance(st, ast.If):
            self.test(st.test, env, fr)
            e2 = env.copy_()
            g = 1 if fr.loops and self.looks_up(st.test, env, fr) else 0
            once = g if isinstance(st.body[-1], (ast.Break, ast.Return)) else 0
            fr.guards, fr.once = fr.guards + g, fr.once + once
            a = self.block(st.body, env, fr)
            fr.guards, fr.once = fr.guards - g, fr.once - once
            b = self.block(st.orelse, e2, fr)
            r = join_env(a, b)
            return self.merge_into(env, r)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            return self.loop(st, env, fr)
        elif isinstance(st, ast.While):
            self.test(st.test, env, fr)
            saved, fr.brk, broke = fr.brk, [], None
            drains = self.drains(st, env, fr)
            if drains is not None:
                self.loops_seen.add(id(st))
                fr.loops.append({'text': unparse(drains, 40), 'node': st, 'why': None, 'drains': ast.dump(drains)})
            for _ in range(2):
                e2 = env.copy_()
                if drains is not None:
                    for n in list(e2):
                        e2[n] = e2[n].without('NE')
                b = self.block(st.body, e2, fr)
                self.test(st.test, e2 if b is not None else env, fr)
                r = join_env(env.copy_(), b)
                for k in fr.brk:
                    r = join_env(r, k)
                    broke = join_env(broke, k) if k.left else broke
                if drains is not None:
                    for r_ in (r, broke):
                        for n in list(r_ or ()):
                            if 'E' in r_[n].f:
                                r_[n] = V((r_[n].f - {'E', 'N'}) | {'A'}, r_[n].e, r_[n].fn, r_[n].w)
                self.merge_into(env, r)
            if drains is not None:
                fr.loops.pop()
            fr.brk = saved
            return self.or_else(st, env, broke, fr)
        elif isinstance(st, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            start = env.copy_()
            a = self.block(st.body, env, fr)
            mid = join_env(start, a)
            outs = []
            if a is not None:
                a = self.block(st.orelse, a, fr)
                if a is not None:
                    outs.append(a.copy_())
            for h in st.handlers:
                e = mid.copy_()
                if h.name:
                    e[h.name] = CLEAN
                b = self.block(h.body, e, fr)
                if b is not None:
                    outs.append(b)
            r = None
            for o in outs:
                r = join_env(r, o)
            if st.finalbody:
                x = self.block(st.finalbody, r if r is not None else mid.copy_(), fr)
                r = x if r is not None else None
            return self.merge_into(env, r)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                v = self.ev(it.context_expr, env, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, fr, st)
            return self.block(st.body, env, fr)
        elif isinstance(st, ast.Raise):
            if st.exc is not None:
                v = self.ev(st.exc, env, fr)
                if fr.loops and 'E' in v.f and not fr.guards:
                    self.hit('first-match', fr, st, 'which element is complained about depends on the order of '
                             + fr.loops[-1]['text'])
            return None
        elif isinstance(st, ast.Assert):
            self.test(st.test, env, fr)
            if st.msg is not None:
                self.ev(st.msg, env, fr)
        elif isinstance(st, ast.Break):
            e = env.copy_()
            if fr.guards:
                for k in e:
                    e[k] = e[k].without('E')
            e.left = True
            fr.brk.append(e)
            return None
        elif isinstance(st, ast.Continue):
            if fr.brk is not None:
                fr.brk.append(env.copy_())
            return None
        elif isinstance(st, FUNC):
            env[st.name] = V((), None, ((st, env, fr),))
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(st, ast.Nonlocal):
            env.nonlocals |= set(st.names)
        elif isinstance(st, ast.Global):
            env.nonlocals |= set(st.names)
        elif isinstance(st, getattr(ast, 'Match', ())):
            self.ev(st.subject, env, fr)
            r = env.copy_()
            for c in st.cases:
                r = join_env(r, self.block(c.body, env.copy_(), fr))
            return self.merge_into(env, r)
        return env

    def test(self, e, env, fr):
        return self.ev(e, env, fr)

    def looks_up(self, t, env, fr):
        """element.key == something else: looks for one particular element"""
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            return any(self.looks_up(x, env, fr) for x in t.values)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is)):
            a, b = self.ev(t.left, env, fr), self.ev(t.comparators[0], env, fr)
            return ('E' in a.f) != ('E' in b.f)
        return False

    def returned(self, v: V, st, fr: Frame):
        if fr.loops and 'E' in v.f and not fr.guards and not isinstance(st.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            self.hit('first-match', fr, st, 'which element is returned depends on the order of ' + fr.loops[-1]['text'])
        v = v.without('E') if fr.loops else v
        if fr.loops and isinstance(st, ast.Return):
            c = st.value.value if isinstance(st.value, ast.Constant) else None if st.value is None else ...
            if c is not ...:
                lp = fr.loops[-1]
                lp.setdefault('consts', {})[repr(c)] = st
                if len(lp['consts']) > 1:
                    self.hit('first-match', fr, st, 'which of several values is returned depends on the order of '
                             + lp['text'])
        v = V(v.f - {'N', 'A'}, v.e, v.fn, v.w)
        fr.ret = join(fr.ret, v) if fr.ret is not None else v

    def yielded(self, v: V, fr: Frame, env):
        f = {'U'} if fr.loops else set()
        e = self.elem(V(v.f - {'N', 'E'}, v.e))
        old = fr.ret if fr.ret is not None else CLEAN
        fr.ret = join(old, V(f, e))

    def loop(self, st, env: Env, fr: Frame):
        it = self.ev(st.iter, env, fr)
        unordered = bool(it.f & {'S', 'U'})
        ev = it.e if it.e is not None else CLEAN
        saved, fr.brk, broke = fr.brk, [], None
        if unordered:
            self.loops_seen.add(id(st))
            fr.loops.append({'text': unparse(st.iter, 40), 'node': st, 'why': it.w})
        if unordered:
            for n in list(env):
                if 'E' in env[n].f:
                    env[n] = V((env[n].f - {'E'}) | {'F'}, env[n].e, env[n].fn, env[n].w)
        outer = set(env)
        single = unordered and isinstance(st.iter, ast.Name) and self.single(st, st.iter.id)
        for k in range(2):
            body = env.copy_()
            if unordered:
                for n in outer:
                    if 'N' in body[n].f:
                        body[n] = body[n].without('N')
            x = ev.with_('E', 'N') if unordered and not single else \
                V(ev.f | (it.f & {'E', 'N'}), ev.e, ev.fn, ev.w) if it.f & {'E'} else ev
            self.assign(st.target, x, body, fr, st, fresh=True)
            b = self.block(st.body, body, fr)
            r = join_env(env.copy_(), b)
            for e in fr.brk:
                r = join_env(r, e)
            fr_brk, fr.brk = fr.brk, []
            exits = [e for e in fr_brk if e.left]
            for e in exits:
                broke = join_env(broke, e)
            if unordered:
                for n in list(broke or ()):
                    if 'E' in broke[n].f:
                        broke[n] = V((broke[n].f - {'E', 'N'}) | {'A'}, broke[n].e, broke[n].fn, broke[n].w)
                for n in list(r):
                    if 'E' in r[n].f:
                        r[n] = V((r[n].f - {'E', 'N'}) | {'A'}, r[n].e, r[n].fn, r[n].w)
            self.merge_into(env, r)
        if unordered:
            fr.loops.pop()
            for n in list(env):
                if 'F' in env[n].f:
                    env[n] = V((env[n].f - {'F'}) | {'E'}, env[n].e, env[n].fn, env[n].w)
            for n in list(broke or ()):
                if 'F' in broke[n].f:
                    broke[n] = V((broke[n].f - {'F'}) | {'E'}, broke[n].e, broke[n].fn, broke[n].w)
        fr.brk = saved
        return self.or_else(st, env, broke, fr)

    def or_else(self, st, env, broke, fr):
        """else-branch of a loop"""
        if not st.orelse:
            return env
        b = self.block(st.orelse, env.copy_(), fr)
        return self.merge_into(env, join_env(broke, b))

    def single(self, st, name):
        return False

    def assign(self, t, v: V, env: Env, fr: Frame, st, fresh=False):
        if isinstance(t, ast.Name):
            n = t.id
            if n in env.nonlocals:
                h = env.parent.holder(n) if env.parent is not None else None
                if fr.arb and 'E' in v.f and not self.accumulates(st, n) and not fr.guards and \
                        not (h is not None and 'N' in h[n].f) and \
                        not (fr.outer is not None and fr.outer.base and not fr.outer.loops):
                    self.hit('last-one-wins', fr, st, f'"{n}" ends up with the value for whichever element comes last')
                if h is not None:
                    h[n] = join(h[n], v)
                else:
                    k = (fr.func.module.name, n)
                    old = self.glob.get(k)
                    new = V(v.f & {'S', 'U'})
                    new = join(old, new) if old is not None else new
                    if new != old:
                        self.glob[k] = new
                        self.changed = True
                return
            if isinstance(st, ast.Assign) and self.accumulates(st, n) and fr.loops:
                v = self.accumulated(env.get(n) or CLEAN, st.value, v, env, fr)
            elif fr.arb and not fresh:
                v = v.with_('N')
                if fr.guards:
                    v = v.without('E')
            env[n] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            ev = v.e if v.e is not None else CLEAN
            fl = v.f & {'E', 'A', 'N'}
            if isinstance(getattr(st, 'value', None), (ast.Tuple, ast.List)) and \
                    len(st.value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, st.value.elts):
                    self.assign(x, self.ev(y, env, fr), env, fr, ast.Assign(targets=[x], value=y, lineno=st.lineno))
                return
            if 'U' in v.f or 'S' in v.f and not fresh:
                fl = fl | {'A'}
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.assign(x.value, V(fl | (v.f & {'U'}), v.e), env, fr, st, fresh)
                else:
                    self.assign(x, V(ev.f | fl, ev.e), env, fr, st, fresh)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr, st, fresh)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, fr)
            if fr.arb and 'E' in v.f and not b.f & {'E', 'N'} and not self.constant(st) and \
                    not self.accumulates(st, dotted(t)):
                self.hit('last-one-wins', fr, st, f'{unparse(t)} ends up with the value for whichever element comes last')
            cl = self.classes_of(t.value, fr)
            if v.f & {'U', 'S'} or v.e is not None:
                if self.setters is None:
                    self.setters = {}
                    for c in self.ix.all_classes():
                        for n, f in c.setters.items():
                            self.setters.setdefault(n, []).append(f)
                for f in self.setters.get(t.attr, ()):
                    if cl is None or f.cls.name in cl:
                        self.call_func(f, ([V(v.f & {'U', 'S'}, v.e)], {}), 0)
            if dotted(t.value) == 'self' and fr.cls is not None:
                self.set_attr(fr.cls.name, t.attr, v)
            elif cl:
                self.set_attr(cl[0], t.attr, v)
            else:
                for c in self.owners.get(t.attr, ()) if len(self.owners.get(t.attr, ())) == 1 else ():
                    self.set_attr(c, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, fr)
            k = self.ev(t.slice, env, fr)
            nb = V(b.f, join(b.e, self.elem(V(v.f - {'E', 'N'}, v.e))) if b.e is not None or v.f - {'E', 'N'} or
                   v.e is not None else None, b.fn, b.w)
            if isinstance(t.slice, ast.Slice):
                nb = V(b.f | ({'U'} if v.f & {'S', 'U'} else set()), join(b.e, v.e) if b.e is not None and v.e is not None
                       else b.e or v.e, b.fn, v.w or b.w)
            elif fr.loops and 'E' in k.f and 'N' not in b.f:
                nb = nb.with_('S')        # filled in arbitrary order
            elif fr.arb and 'E' in v.f and 'E' not in k.f and not b.f & {'E', 'N'}:
                self.hit('last-one-wins', fr, st, f'{unparse(t)} ends up with the value for whichever element comes last')
            elif fr.base and not fr.loops and 'E' in k.f and 'N' not in b.f:
                nb = nb.with_('S')
            if 'I' in k.f and False:
                pass
            self.rebind(t.value, nb, env, fr)

    def constant(self, st):
        return isinstance(getattr(st, 'value', None), ast.Constant)

    def rebind(self, t, v: V, env: Env, fr: Frame):
        """the object denoted by t has changed its contents"""
        if isinstance(t, ast.Name):
            h = env.holder(t.id)
            if h is not None:
                h[t.id] = v
            else:
                k = (fr.func.module.name, t.id)
                if k in self.glob:
                    new = join(self.glob[k], V(v.f & {'S', 'U'}))
                    if new != self.glob[k]:
                        self.glob[k] = new
                        self.changed = True
        elif isinstance(t, ast.Attribute):
            cl = self.classes_of(t.value, fr)
            if dotted(t.value) == 'self' and fr.cls is not None:
                cl = [c for c in cl if (c, t.attr) in self.attr][:1] or [fr.cls.name]
            elif not cl:
                cl = list(self.owners.get(t.attr, ())) if len(self.owners.get(t.attr, ())) == 1 else []
            for c in cl[:1]:
                self.set_attr(c, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, fr)
            self.rebind(t.value, V(b.f, join(b.e, self.elem(v)) if b.e is not None else self.elem(v), b.fn, b.w), env, fr)
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ('setdefault', 'get'):
            self.rebind(ast.Subscript(value=t.func.value, slice=t.args[0] if t.args else ast.Constant(0),
                                      ctx=ast.Load()), v, env, fr)

    def accumulates(self, st, name):
        """x = x op ...: a running total"""
        v = getattr(st, 'value', None)
        if isinstance(st, ast.AugAssign):
            return True
        parts = (v.left, v.right) if isinstance(v, ast.BinOp) else v.values if isinstance(v, ast.BoolOp) else \
            v.args if isinstance(v, ast.Call) and dotted(v.func) in ('min', 'max') and not v.keywords else ()
        return any(dotted(x) == name for x in parts if isinstance(x, (ast.Name, ast.Attribute)))

    def textual(self, e, v=None):
        for n in ast.walk(e):
            if isinstance(n, ast.JoinedStr) or isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) \
                    or isinstance(n, (ast.List, ast.ListComp, ast.Tuple)):
                return True
            if isinstance(n, ast.Call) and (dotted(n.func) in ('str', 'repr', 'list', 'tuple') or
                                            isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'join')):
                return True
        return False

    def accumulated(self, old: V, expr, v: V, env, fr):
        if isinstance(expr, ast.BoolOp):
            return V(old.f, old.e, old.fn, old.w)
        if isinstance(expr, ast.Call):
            return V(old.f, old.e, old.fn, old.w)
        if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.Add) and \
                (self.textual(expr) or getattr(self, '_strs', None)) and 'N' not in old.f:
            return V(old.f | {'U'}, old.e, old.fn, old.w)
        return V((old.f | v.f) - {'E'}, join(old.e, v.e) if old.e is not None and v.e is not None else old.e or v.e)

    def augassign(self, st: ast.AugAssign, env: Env, fr: Frame):
        v = self.ev(st.value, env, fr)
        old = self.ev(ast.copy_location(self.load(st.target), st), env, fr)
        texty = isinstance(st.op, ast.Add) and (self.textual(st.value) or 'T' in old.f or v.f & {'U', 'T'} or
                                                v.e is not None)
        fl = (old.f | (v.f - {'S', 'E', 'N'})) if not isinstance(st.op, ast.Sub) else old.f | (v.f & {'A'})
        if isinstance(st.op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
            fl = old.f | (v.f & {'S'}) if not old.f & {'S'} else old.f
        if isinstance(st.op, ast.Add) and 'S' in v.f:
            fl = fl | {'U'}            # list += set
        if fr.arb and texty and 'N' not in old.f:
            if isinstance(st.target, ast.Name) and (fr.loops or st.target.id in env.nonlocals or
                                                    st.target.id not in env):
                fl = fl | {'U'}
            elif isinstance(st.target, ast.Attribute) and not self.ev(st.target.value, env, fr).f & {'E', 'N'}:
                self.hit('order-of-effects', fr, st, f'{unparse(st.target)} is extended in arbitrary order')
        nv = V(fl, join(old.e, v.e) if old.e is not None and v.e is not None else (old.e or v.e), old.fn, old.w)
        if isinstance(st.target, ast.Name) and st.target.id not in env.nonlocals:
            env[st.target.id] = nv
        else:
            self.rebind(st.target, nv, env, fr)

    def load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())

    # -- expressions -------------------------------------------------------------------------

    def ev(self, e, env: Env, fr: Frame) -> V:
        if e is None or isinstance(e, ast.Constant):
            return CLEAN
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is not None:
            return m(e, env, fr)
        r = CLEAN
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                x = self.ev(c, env, fr)
                r = V(r.f | (x.f & {'E', 'A'}))
        return r

    def ev_Name(self, e, env, fr):
        v = env.get_(e.id)
        if v is not None:
            if 'A' in v.f:
                if not self.in_failure(e, fr):
                    self.hit('last-one-wins', fr, e, f'"{e.id}" has the value for whichever element came last')
                return v.without('A')
            return v
        k = (fr.func.module.name, e.id)
        if k in self.glob:
            return self.glob[k]
        imp = fr.func.module.imports.get(e.id)
        g = self.ix.resolve_global(fr.func.module, e.id) if e.id not in ('self', 'cls') else None
        if g is not None:
            return self.glob.get((g[0].name, e.id), CLEAN)
        f = self.ix.resolve_func(fr.func.module, e.id)
        if f is not None:
            return V((), None, ((f, None, None),))
        return CLEAN

    def ev_Attribute(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        base = V(b.f & {'E', 'A', 'N'})
        cl = self.classes_of(e.value, fr)
        if cl is None:
            ow = self.owners.get(e.attr, set())
            if len(ow) > 1:
                cs = [c for m in self.ix.modules.values() for c in m.classes.values() if c.name in ow]
                roots = {c.name for c in cs if not any(b.name in ow for b in self.ix.mro(c)[1:])}
                if len(roots) == 1:
                    ow = {c for c in ow if (c, e.attr) in self.attr} or ow
            vals = [self.attr.get((c, e.attr), CLEAN) for c in ow]
            props = [m for m in self.ix.methods_named(e.attr) if m.is_property]
            if vals and all(v.f & {'S', 'U'} for v in vals):
                r = vals[0]
                for v in vals[1:]:
                    r = join(r, v)
                return V(r.f | base.f, r.e, r.fn, r.w)
            if props and not vals and all('S' in self.ann(p.node.returns).f for p in props):
                a = self.ann(props[0].node.returns)
                return V(a.f | base.f, a.e)
            return base
        for c in cl:
            for m in self.ix.modules.values():
                if c in m.classes and e.attr in m.classes[c].methods and m.classes[c].methods[e.attr].is_property:
                    f = m.classes[c].methods[e.attr]
                    r = self.call_func(f, ([], {}), 0)
                    return V(r.f | base.f, r.e, (), r.w)
        v = self.get_attr(cl, e.attr)
        return V(v.f | base.f, v.e, v.fn, v.w)

    def ev_Subscript(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        s = self.ev(e.slice, env, fr)
        if 'U' in b.f:
            if isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None:
                return b
            if not self.single_element(e.value, fr):
                self.hit('arbitrary-element', fr, e, f'an element of {unparse(e.value)} is picked by its place in an '
                         'arbitrary order')
            return V(b.f - {'U', 'S'}, b.e)
        fl = (b.f & {'E', 'N'}) | (s.f & {'E'})
        if isinstance(e.slice, ast.Slice):
            return V(b.f | (s.f & {'E'}), b.e)
        ev = b.e if b.e is not None else CLEAN
        return V(ev.f | fl, ev.e, ev.fn)

    def ev_Set(self, e, env, fr):
        vs = [self.ev(x, env, fr) for x in e.elts]
        r = None
        for v in vs:
            r = join(r, V(v.f - {'E', 'N', 'I'}, v.e)) if r is not None else V(v.f - {'E', 'N', 'I'}, v.e)
        fl = {'S'} if len(e.elts) > 1 or any(isinstance(x, ast.Starred) for x in e.elts) else {'S'}
        return V(fl | ({'E'} if any('E' in v.f for v in vs) else set()), self.elem(r) if r else None)

    def seq(self, e, env, fr):
        f, r = set(), None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, fr)
                if v.f & {'S', 'U'}:
                    f |= {'U'}
                f |= v.f & {'A', 'E'}
                r = join(r, v.e) if r is not None and v.e is not None else r or v.e
            else:
                v = self.ev(x, env, fr)
                f |= v.f & {'E', 'A', 'I'}
                r = join(r, self.elem(V(v.f - {'N'}, v.e, v.fn))) if r is not None else self.elem(V(v.f - {'N'}, v.e, v.fn))
        return V(f, r)

    ev_List = ev_Tuple = seq

    def ev_Dict(self, e, env, fr):
        f, r = set(), None
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, env, fr)
            if k is None:
                f |= v.f & {'S'}
                if 'U' in v.f:
                    f |= {'S'}
                r = join(r, v.e) if r is not None and v.e is not None else r or v.e
                continue
            self.ev(k, env, fr)
            f |= v.f & {'E', 'A'}
            r = join(r, self.elem(V(v.f - {'N'}, v.e))) if r is not None else self.elem(V(v.f - {'N'}, v.e))
        return V(f, r)

    def comp(self, e, env, fr, kind):
        child = Env({}, env)
        un = None
        n = 0
        fl = set()
        for g in e.generators:
            it = self.ev(g.iter, child, fr)
            ev = it.e if it.e is not None else CLEAN
            u = bool(it.f & {'S', 'U'})
            fl |= it.f & {'A'}
            if u:
                un = un or it.w or unparse(g.iter, 40)
                fr.loops.append({'text': unparse(g.iter, 40), 'node': e, 'why': None})
                self.loops_seen.add(id(e))
                n += 1
            self.assign(g.target, ev.with_('E', 'N') if u else
                        V(ev.f | (it.f & {'E', 'N'}), ev.e, ev.fn, ev.w) if it.f & {'E'} else ev, child, fr, ast.Pass(lineno=e.lineno), fresh=True)
            for c in g.ifs:
                v = self.ev(c, child, fr)
                if u and self.looks_up(c, child, fr):
                    self.lookups.add(id(e))
        if kind == 'dict':
            self.ev(e.key, child, fr)
            x = self.ev(e.value, child, fr)
        else:
            x = self.ev(e.elt, child, fr)
        for _ in range(n):
            fr.loops.pop()
        drop = {'N'} | ({'E'} if n else set())
        if not n:
            fl |= x.f & {'E', 'A'}
        el = self.elem(V(x.f - drop, x.e))
        if kind == 'set':
            return V({'S'} | fl, el if el is None else self.elem(V(el.f - {'I'}, el.e)))
        if kind == 'dict':
            return V(({'S'} if un else set()) | fl, el)
        return V(({'U'} if un else set()) | fl, el, (), un)

    def ev_ListComp(self, e, env, fr):
        return self.comp(e, env, fr, 'list')

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, env, fr):
        return self.comp(e, env, fr, 'set')

    def ev_DictComp(self, e, env, fr):
        return self.comp(e, env, fr, 'dict')

    def ev_IfExp(self, e, env, fr):
        self.test(e.test, env, fr)
        return join(self.ev(e.body, env, fr), self.ev(e.orelse, env, fr))

    def ev_BoolOp(self, e, env, fr):
        r = None
        for x in e.values:
            v = self.ev(x, env, fr)
            r = join(r, v) if r is not None else v
        return r

    def ev_NamedExpr(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        self.assign(e.target, v, env, fr, e)
        return v

    def ev_Lambda(self, e, env, fr):
        return V((), None, ((e, env, fr),))

    def ev_Starred(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def ev_Await(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def ev_Yield(self, e, env, fr):
        v = self.ev(e.value, env, fr) if e.value is not None else CLEAN
        self.yielded(v, fr, env)
        return CLEAN

    def ev_YieldFrom(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        old = fr.ret if fr.ret is not None else CLEAN
        fr.ret = join(old, V({'U'} if v.f & {'S', 'U'} or fr.loops else (), v.e))
        return CLEAN

    def ev_Compare(self, e, env, fr):
        vs = [self.ev(x, env, fr) for x in [e.left] + e.comparators]
        fl = set()
        for v in vs:
            fl |= v.f & {'E', 'A'}
        for i, op in enumerate(e.ops):
            if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                if any('I' in v.f for v in vs[i:i + 2]):
                    self.hit('identity-order', fr, e, 'object identities are compared')
            if isinstance(op, (ast.Eq, ast.NotEq)) and any('U' in v.f for v in vs[i:i + 2]):
                self.hit('arbitrary-order-compared', fr, e, 'sequences in arbitrary order are compared')
        return V(fl)

    def ev_BinOp(self, e, env, fr):
        a, b = self.ev(e.left, env, fr), self.ev(e.right, env, fr)
        if isinstance(e.op, ast.Mod) and (isinstance(e.left, ast.JoinedStr) or isinstance(e.left, ast.Constant)
                                          and isinstance(e.left.value, str)):
            parts = [self.ev(x, env, fr) for x in e.right.elts] if isinstance(e.right, ast.Tuple) else [b]
            return self.text(e, parts, fr)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)) and (a.f | b.f) & {'S'}:
            return V({'S'} | ((a.f | b.f) & {'E', 'A'}), join(a.e, b.e) if a.e is not None and b.e is not None else a.e or b.e)
        fl = (a.f | b.f) - {'N'}
        return V(fl, join(a.e, b.e) if a.e is not None and b.e is not None else a.e or b.e)

    def ev_UnaryOp(self, e, env, fr):
        v = self.ev(e.operand, env, fr)
        return V(v.f & {'E', 'A', 'I'}) if not isinstance(e.op, ast.Not) else V(v.f & {'E', 'A'})

    def ev_JoinedStr(self, e, env, fr):
        return self.text(e, [self.ev(x.value, env, fr) for x in e.values if isinstance(x, ast.FormattedValue)], fr)

    def text(self, e, parts, fr):
        fl = set()
        for v in parts:
            if v.f & {'S', 'U'} or 'I' in v.f and not self.in_failure(e, fr):
                if True:
                    self.hit('text', fr, e, 'a text is made from ' + self.describe(v))
            fl |= v.f & {'E'}
        return V(fl)

    def describe(self, v):
        return ('the elements of an unordered collection' if v.f & {'S'} else
                'things in arbitrary order' if v.f & {'U'} else
                'an object identity or hash value' if 'I' in v.f else 'a value that differs from run to run')

    def in_failure(self, e, fr):
        """message of an exception or assertion"""
        top = fr.func.node
        k = ('fail', id(top))
        s = self.ann_cache.get(k)
        if s is None:
            s = set()
            for n in ast.walk(top):
                if isinstance(n, (ast.Raise, ast.Assert)):
                    s |= {id(x) for x in ast.walk(n)}
            loads = {}
            for n in ast.walk(top):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    loads.setdefault(n.id, []).append(id(n) in s)
            for n in ast.walk(top):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                    t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    if isinstance(t, ast.Name) and all(loads.get(t.id, [False])):
                        s |= {id(x) for x in ast.walk(n.value)}
            self.ann_cache[k] = s
        return id(e) in s

    # -- calls -------------------------------------------------------------------------------

    def ev_Call(self, e: ast.Call, env: Env, fr: Frame) -> V:
        self.stack.append((fr, e))
        try:
            return self.ev_Call_(e, env, fr)
        finally:
            self.stack.pop()

    def ev_Call_(self, e: ast.Call, env: Env, fr: Frame) -> V:
        fn = e.func
        d = dotted(fn) or ''
        name = d.split('.')[-1] if d else (fn.attr if isinstance(fn, ast.Attribute) else '')
        recv = self.ev(fn.value, env, fr) if isinstance(fn, ast.Attribute) else None
        args, star = [], False
        for a in e.args:
            v = self.ev(a, env, fr)
            if isinstance(a, ast.Starred):
                star = True
                args.append(V((v.f & {'A', 'E'}) | ({'A'} if v.f & {'S', 'U'} else set()) if not
                              (v.f & {'S', 'U'}) else {'$'}, v.e))
            else:
                args.append(v)
        kw = {k.arg: self.ev(k.value, env, fr) for k in e.keywords if k.arg}
        for k in e.keywords:
            if k.arg is None:
                self.ev(k.value, env, fr)
        a0 = args[0] if args else None
        local = env.get_(d) if isinstance(fn, ast.Name) else None
        eff = {'E'} if any('E' in v.f for v in list(args) + list(kw.values())) or recv is not None and 'E' in recv.f \
            else set()
        arbf = {'A'} if any('A' in v.f for v in list(args) + list(kw.values())) or recv is not None and 'A' in recv.f \
            else set()
        starred_set = any('$' in v.f for v in args)
        args = [v.without('$') for v in args]
        # sources
        if d in ('id', 'hash') and isinstance(fn, ast.Name) and local is None:
            return V({'I'} | eff)
        if d in CLOCK or name in CLOCK_NAMES and recv is not None or d.startswith('random.') or d.startswith('secrets.'):
            self.hit('clock', fr, e, 'a value that differs from run to run')
            return CLEAN
        if name in UNORDERED_CALLS and not self.package_callees(e, fr) and (recv is None or d.startswith(
                ('os.', 'glob.', 'concurrent.', 'asyncio.')) or name in ('iterdir', 'rglob', 'scandir')):
            return V({'U'} if name not in ('wait',) else (), None if name != 'wait' else V('S'), (), f'{name}()')
        # calls of nested functions and callbacks
        v = local if isinstance(fn, ast.Name) else None
        if isinstance(fn, ast.Lambda):
            v = V((), None, ((fn, env, fr),))
        if v is not None and v.fn:
            r = None
            for node, cenv, cfr in v.fn:
                if isinstance(node, Func):
                    x = self.call_func(node, (args, kw), fr.inner)
                else:
                    x = self.call_nested(node, cenv, cfr, args, kw, fr.inner, fr)
                r = join(r, x) if r is not None else x
            return V(r.f | (eff if not r.f & {'S'} else set()), r.e, r.fn, r.w)
        if v is not None and isinstance(fn, ast.Name):
            return V(eff | arbf)
        # conversions
        if isinstance(fn, ast.Name) or d.split('.')[0] in ('itertools', 'functools', 'copy', 'collections', 'builtins'):
            if name in SETN:
                el = a0.e if a0 is not None else None
                return V({'S'} | eff if a0 is not None else {'S', 'X'}, el)
            if name == 'sorted':
                if 'key' in kw or any(k.arg == 'key' for k in e.keywords):
                    self.sortkey(e, next(k.value for k in e.keywords if k.arg == 'key'), env, fr,
                                 a0.f & {'S', 'U'} if a0 else (), a0)
                if a0 is not None and 'I' in (a0.e.f if a0.e is not None else ()):
                    self.hit('identity-order', fr, e, 'sorted by object identities')
                if a0 is None:
                    return CLEAN
                return V(a0.f - {'S', 'U'}, a0.e)
            if name in ('min', 'max') and a0 is not None:
                key = next((k.value for k in e.keywords if k.arg == 'key'), None)
                if key is not None and a0.f & {'S', 'U'} and not self.injective(key):
                    self.hit('ties', fr, e, 'which of several elements with equal keys is taken depends on their order')
                el = a0.e if len(e.args) == 1 and a0.e is not None else CLEAN
                return V(el.f | eff | arbf, el.e)
            if name in INSENSITIVE:
                return V((eff | arbf) - ({'E'} if False else set()))
            if name in TO_SEQ:
                f, el = set(), None
                for x in args:
                    f |= ({'U'} if x.f & {'S', 'U'} else set()) | (x.f & {'A', 'E', 'N'})
                    el = join(el, x.e) if el is not None and x.e is not None else el or x.e
                if starred_set:
                    f |= {'U'}
                return V(f, el, (), next((x.w for x in args if x.w), None))
            if name in ('map', 'filter', 'enumerate', 'zip', 'accumulate', 'reduce', 'starmap', 'groupby'):
                f, el = set(), None
                for x in args:
                    f |= ({'U'} if x.f & {'S', 'U'} else set()) | (x.f & {'A', 'E'})
                un = bool(f & {'U'})
                if name in ('map', 'filter', 'starmap', 'reduce') and args and args[0].fn:
                    sub = args[1].e if len(args) > 1 and args[1].e is not None else CLEAN
                    if un:
                        fr.loops.append({'text': unparse(e, 40), 'node': e, 'why': None})
                    for node, cenv, cfr in args[0].fn:
                        a = [sub.with_('E', 'N') if un else sub]
                        x = self.call_func(node, (a, {}), fr.inner) if isinstance(node, Func) else \
                            self.call_nested(node, cenv, cfr, a, {}, fr.inner, fr)
                        el = self.elem(V(x.f - {'E', 'N'}, x.e)) if name != 'filter' else args[1].e
                    if un:
                        fr.loops.pop()
                elif args:
                    for x in args:
                        el = join(el, x.e) if el is not None and x.e is not None else el or x.e
                if name == 'reduce':
                    return V(f)
                if name == 'zip':
                    el = V((), el) if el is not None else None
                return V(f, el)
            if name == 'next':
                if a0 is None:
                    return CLEAN
                el = a0.e if a0.e is not None else CLEAN
                if a0.f & {'S', 'U'} and not self.single_element(e.args[0], fr) and id(e.args[0]) not in self.lookups:
                    self.hit('arbitrary-element', fr, e, 'whichever element comes first is taken')
                return V(el.f | (a0.f & {'E'}), el.e)
            if name == 'dict':
                f, el = set(), None
                for x in args:
                    f |= ({'S'} if x.f & {'S', 'U'} else set()) | (x.f & {'A', 'E'})
                    el = x.e
                return V(f, el)
            if name in ('str', 'repr', 'ascii', 'format') and a0 is not None:
                return self.text(e, args, fr)
            if name == 'print':
                if any(x.f & {'S', 'U', 'I'} for x in args):
                    self.text(e, args, fr)
                return CLEAN
            if name in ('deepcopy', 'copy', 'cast') and args:
                return args[-1]
            if name == 'partial' and args:
                return V((), None, args[0].fn)
            if name == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                return self.ev(ast.Attribute(value=e.args[0], attr=str(e.args[1].value), ctx=ast.Load(),
                                             lineno=e.lineno), env, fr)
        # methods of containers and texts
        if recv is not None:
            cal = self.package_callees(e, fr)
            if not cal:
                r = self.container_call(e, fn, name, recv, args, kw, env, fr, eff, arbf)
                if r is not None:
                    return r
        # functions of the package
        cal = self.package_callees(e, fr)
        c = self.ix.find_class(fr.func.module, name) if not cal and name[:1].isupper() and \
            isinstance(fn, (ast.Name, ast.Attribute)) and local is None else None
        if c is not None:
            for x in list(args) + list(kw.values()):
                if 'U' in x.f:
                    self.hit('built', fr, e, f'a {c.name} is built from things in arbitrary order')
                    break
            return V(eff | arbf | ({'N'} if fr.arb else set()))
        if cal:
            r = None
            unknown_recv = recv is not None and 'E' in recv.f
            for f in cal:
                if unknown_recv and fr.arb:
                    # a method of the element itself: changes the element only
                    x = self.ret.get((id(f.node), False), CLEAN)
                    an = self.ann(f.node.returns)
                    x = join(x, an)
                    for k, g in list(enumerate(args)) + list(kw.items()):
                        for node, cenv, cfr in g.fn if self.calls_param(f, k) else ():
                            ps = [V('EN')] * (len(node.args.args) if not isinstance(node, Func) else 1)
                            if isinstance(node, Func):
                                self.call_func(node, (ps, {}), fr.inner)
                            else:
                                self.call_nested(node, cenv, cfr, ps, {}, fr.inner, fr)
                else:
                    x = self.call_func(f, (args, kw, recv if recv is not None and f.cls is not None else CLEAN)
                                       if f.cls is not None else (args, kw), fr.inner)
                r = join(r, x) if r is not None else x
            return V(r.f | (eff if not r.f & {'S'} else set()), r.e, r.fn, r.w)
        if name in TEXT and any(deep(v, 'SUI') for v in args):
            if True:
                v = next(v for v in args if deep(v, 'SUI'))
                while not v.f & {'S', 'U', 'I'}:
                    v = v.e
                self.hit('text', fr, e, 'written out: ' + self.describe(v))
        return V(eff | arbf)

    def calls_param(self, f: Func, k):
        """does f call its k-th argument?"""
        a = f.node.args
        if isinstance(k, int):
            ps = a.posonlyargs + a.args
            k += 1 if f.cls is not None and not f.is_static else 0
            if k >= len(ps):
                return True
            k = ps[k].arg
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == k for n in ast.walk(f.node))

    def number(self, e):
        """positions, codes, lengths ...: different elements have the same value"""
        if isinstance(e, ast.UnaryOp):
            return self.number(e.operand)
        n = e.attr if isinstance(e, ast.Attribute) else (dotted(e.func) or '').split('.')[-1] if isinstance(e, ast.Call) else ''
        return n in ('pos', '_pos', 'orig_pos', 'code', 'line', 'column', 'length', 'orig_line', 'orig_column', 'severity',
                     'len', 'strlen', 'depth', 'level', 'count', 'index', 'bool') or isinstance(e, ast.Constant)

    def injective(self, key):
        """sort key that keeps different elements apart"""
        if isinstance(key, ast.Lambda):
            p = key.args.args[0].arg if key.args.args else None
            b = key.body
            if isinstance(b, ast.Tuple) and len(b.elts) > 1 and not all(map(self.number, b.elts)) and \
                    len({unparse(x) for x in b.elts if any(isinstance(n, ast.Name) and n.id == p
                                                           for n in ast.walk(x))}) > 1:
                return True         # taken to be a key

            def keeps(x):
                return isinstance(x, ast.Name) and x.id == p or \
                    isinstance(x, (ast.Tuple, ast.List)) and any(keeps(y) for y in x.elts) or \
                    isinstance(x, ast.Call) and dotted(x.func) in ('str', 'repr') and len(x.args) == 1 and keeps(x.args[0])
            return keeps(b)
        return dotted(key) in ('str', 'repr')

    def sortkey(self, e, key, env, fr, unordered, a0):
        kv = self.ev(key, env, fr)
        if isinstance(key, ast.Name) and key.id in ('id', 'hash'):
            self.hit('identity-order', fr, e, 'sorted by object identities')
        elif isinstance(key, ast.Lambda):
            x = self.call_nested(key, env, fr, [CLEAN], {}, 0, fr)
            if 'I' in x.f or x.e is not None and 'I' in x.e.f:
                self.hit('identity-order', fr, e, 'sorted by object identities')
        if unordered and not self.injective(key):
            self.hit('ties', fr, e, 'elements with equal keys stay in arbitrary order')

    def aliases(self, attr):
        """methods that are stored in attributes of this name"""
        if self.alias is None:
            self.alias = {}
            for f in self.ix.all_functions():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                for m in self.ix.methods_named(n.value.attr):
                                    l = self.alias.setdefault(t.attr, [])
                                    if m not in l and not m.is_property:
                                        l.append(m)
        ms = self.alias.get(attr, [])
        return ms if len(ms) <= 4 else []

    def package_callees(self, e, fr):
        ix, fn = self.ix, e.func
        if isinstance(fn, ast.Name):
            f = ix.resolve_func(fr.func.module, fn.id)
            if f is not None:
                return [f]
            return []
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super' and fr.cls is not None:
                f = ix.lookup_super(fr.cls, fr.cls, fn.attr)
                return [f] if f is not None else []
            cl = self.classes_of(fn.value, fr)
            if cl:
                res = []
                seen = set()
                for n in cl:
                    for m in ix.modules.values():
                        c = m.classes.get(n)
                        if c is not None and fn.attr in c.methods and id(c.methods[fn.attr].node) not in seen:
                            seen.add(id(c.methods[fn.attr].node))
                            res.append(c.methods[fn.attr])
                if not res:
                    return self.aliases(fn.attr)
                if dotted(fn.value) == 'self' and res and fr.cls is not None:
                    f = ix.lookup(fr.cls, fn.attr)
                    if f is not None:
                        subs = [c.methods[fn.attr] for c in ix.subclasses(fr.cls, strict=True) if fn.attr in c.methods]
                        return [f] + subs[:6]
                return res[:8]
            if isinstance(fn.value, ast.Name):
                m = ix.modules.get(fn.value.id)
                if m is not None and fn.attr in m.functions:
                    return [m.functions[fn.attr]]
                c = ix.find_class(fr.func.module, fn.value.id)
                if c is not None:
                    f = ix.lookup(c, fn.attr)
                    return [f] if f is not None else []
            if fn.attr in CONTAINER_METHODS:
                return []
            ms = [m for m in ix.methods_named(fn.attr) if not m.module.name == 'lsp'] or self.aliases(fn.attr)
            return ms if 0 < len(ms) <= 4 else []
        return []

    def container_call(self, e, fn, name, recv, args, kw, env, fr, eff, arbf):
        base = fn.value
        a0 = args[0] if args else CLEAN
        if name in ('join', 'writelines', 'fromkeys') and args:
            if name == 'fromkeys':
                return V({'S'} if a0.f & {'S', 'U'} else (), None)
            if a0.f & {'S', 'U'}:
                self.hit('text', fr, e, 'joined in arbitrary order' + (f' ({a0.w})' if a0.w else ''))
            if a0.e is not None and a0.e.f & {'I'}:
                self.hit('text', fr, e, 'a text is made from ' + self.describe(a0.e))
            return V(eff | (a0.f & {'A'}))
        if name == 'format' and not recv.f:
            return self.text(e, list(args) + list(kw.values()), fr)
        if name in ('items', 'values', 'keys'):
            el = recv.e
            if name == 'items':
                el = V((), el) if el is not None else None
            if name == 'keys':
                el = None
            return V(recv.f & {'S', 'E', 'A', 'N'} | ({'S'} if 'U' in recv.f else set()), el)
        if name in ('get', 'pop', 'setdefault', 'popitem', 'popleft', '__getitem__'):
            if name in ('pop', 'popitem', 'popleft') and (not args or name != 'pop'):
                el = recv.e if recv.e is not None else CLEAN
                if recv.f & {'S', 'U'} and not self.single_element(base, fr):
                    if self.drained(base, fr):
                        return V(el.f | {'E', 'N'}, el.e)
                    self.hit('arbitrary-element', fr, e, 'an arbitrary element is taken')
                return el
            el = recv.e if recv.e is not None else CLEAN
            if name == 'setdefault' and len(args) > 1:
                el = join(el, V(args[1].f - {'E', 'N'}, args[1].e))
                if fr.loops and 'E' in a0.f and 'N' not in recv.f:
                    self.rebind(base, recv.with_('S'), env, fr)
            elif name in ('get', 'pop') and len(args) > 1:
                el = join(el, args[1])
            return V(el.f | eff | arbf, el.e, el.fn)
        if name in ('copy', '__copy__'):
            return recv
        if name in SETOPS:
            return V({'S'} | eff, recv.e)
        if name == 'sort':
            key = next((k.value for k in e.keywords if k.arg == 'key'), None)
            un = recv.f & {'S', 'U'}
            clean = True
            if key is not None:
                if un and not self.injective(key) and 'K' not in recv.f:
                    clean = False       # a second sort by another key is taken to settle the order
                    self.rebind_strong(base, recv.with_('K'), env, fr)
                self.sortkey(e, key, env, fr, (), recv)
            if clean:
                self.rebind_strong(base, recv.without('UK'), env, fr)
            return CLEAN
        if name in LISTMUT and name not in ('write', 'put', 'put_nowait'):
            v = args[-1] if args else CLEAN
            add = set()
            el = recv.e
            if name in ('extend', 'extendleft'):
                if v.f & {'S', 'U'}:
                    add |= {'U'}
                el = join(el, v.e) if el is not None and v.e is not None else el or v.e
            else:
                x = self.elem(V(v.f - {'E', 'N'}, v.e))
                el = join(el, x) if el is not None and x is not None else el or x
                if 'A' in v.f:
                    add |= {'A'}
            if fr.arb and not fr.once and not recv.f & {'N', 'E'} and not self.balanced(base, fr):
                local = isinstance(base, ast.Name) and env.holder(base.id) is not None
                if local:
                    add |= {'U'}
                else:
                    self.hit('order-of-effects', fr, e, f'{unparse(base)} is extended in arbitrary order')
            if add or el is not recv.e:
                self.rebind(base, V(recv.f | add, el, recv.fn, recv.w), env, fr)
            return CLEAN
        if name in SETMUT:
            v = a0
            x = v.e if name != 'add' else self.elem(V(v.f - {'E', 'N', 'I'}, v.e))
            add = set()
            if name == 'update' and 'S' not in recv.f and v.f & {'S', 'U'}:
                add |= {'S'}                # dictionary updated from an unordered one
            if x is not None or add:
                el = join(recv.e, x) if recv.e is not None and x is not None else recv.e or x
                self.rebind(base, V(recv.f | add, el, recv.fn, recv.w), env, fr)
            return CLEAN
        if name in ('index',) and 'U' in recv.f:
            self.hit('arbitrary-element', fr, e, 'position in an arbitrary order')
            return CLEAN
        if name in ('write', 'put', 'put_nowait') and fr.arb and not recv.f & {'N', 'E'}:
            self.hit('order-of-effects', fr, e, f'written to {unparse(base)} in arbitrary order')
        if name in ('reverse', 'clear', 'remove'):
            return CLEAN
        return None

    def rebind_strong(self, base, v, env, fr):
        if isinstance(base, ast.Name):
            h = env.holder(base.id)
            if h is not None:
                h[base.id] = v

    def drained(self, base, fr):
        """while s: x = s.pop() ...: every element is dealt with; a work list"""
        return any(x.get('drains') == ast.dump(base) for x in fr.loops)

    def drains(self, st, env, fr):
        """the unordered collection that a while-loop empties"""
        t = st.test
        if isinstance(t, ast.Call) and dotted(t.func) in ('len', 'bool') and t.args:
            t = t.args[0]
        elif isinstance(t, ast.Compare) and isinstance(t.left, ast.Call) and dotted(t.left.func) == 'len' and t.left.args:
            t = t.left.args[0]
        if not isinstance(t, (ast.Name, ast.Attribute)) or not self.ev(t, env, fr).f & {'S', 'U'}:
            return None
        txt = ast.dump(t)
        return t if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                        n.func.attr in ('pop', 'popitem', 'popleft') and ast.dump(n.func.value) == txt
                        for b in st.body for n in ast.walk(b)) else None

    def single_element(self, base, fr):
        """is the collection known to have a single element (its length is tested)?"""
        while isinstance(base, ast.Call) and dotted(base.func) in ('list', 'tuple', 'iter') and base.args:
            base = base.args[0]
        txt = ast.dump(base)
        for n in ast.walk(fr.func.node):
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Call) and dotted(n.left.func) == 'len' and \
                    len(n.left.args) == 1 and ast.dump(n.left.args[0]) == txt and isinstance(n.comparators[0], ast.Constant) \
                    and n.comparators[0].value in (1, 2):
                return True
        return False

    def balanced(self, base, fr):
        """what is pushed is popped in the same function"""
        txt = ast.dump(base)
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and
                   not n.args and ast.dump(n.func.value) == txt for n in ast.walk(fr.node))


CONTAINER_METHODS = {'append', 'extend', 'insert', 'appendleft', 'extendleft', 'add', 'discard', 'update', 'pop', 'popitem',
                     'popleft', 'get', 'setdefault', 'items', 'keys', 'values', 'copy', 'sort', 'reverse', 'clear', 'remove',
                     'index', 'count', 'join', 'format', 'split', 'strip', 'find', 'rfind', 'replace', 'startswith',
                     'endswith', 'lower', 'upper', 'union', 'intersection', 'difference', 'symmetric_difference',
                     'fromkeys', 'write', 'read', 'readline', 'close', 'flush', 'encode', 'decode', 'match', 'search',
                     'fullmatch', 'finditer', 'findall', 'sub', 'group', 'groups', 'start', 'end', 'span', 'submit', 'result',
                     'difference_update', 'intersection_update', 'put', 'rstrip', 'lstrip', 'partition', 'title',
                     'casefold', 'isidentifier', 'run'}
