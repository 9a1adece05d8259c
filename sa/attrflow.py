"""Which attributes of a source object reach which attributes of a new object: a small symbolic interpreter
for constructors and copy routines. Values are sets of source attributes, each with the way it was taken over
(shared, shallow copy, deep copy); branches are joined so that an attribute only counts as carried if every
path carries it, except on paths where it is known to be empty."""
from __future__ import annotations
import ast
import copy
from typing import Dict, List, Optional

from .src import Index, Func, Class, FUNC, dotted, AnalysisError

SHARED, SHALLOW, DEEP = 0, 1, 2
NOC = object()
MAXDEPTH = 6
COPYING = {'list', 'dict', 'set', 'tuple', 'frozenset', 'sorted', 'OrderedDict', 'defaultdict', 'deque'}
PASS = {'cast'}


class V:
    """toks: source attribute -> mode (carried on every path); alts: the same per joined path"""
    __slots__ = ('toks', 'const', 'elts', 'srcdict', 'alts', 'kv')

    def __init__(self, toks=None, const=NOC, elts=None):
        self.toks: Dict[str, int] = dict(toks or {})
        self.const = const
        self.elts = elts
        self.srcdict = False
        self.alts = None
        self.kv = None

    def paths(self):
        return self.alts if self.alts is not None else [self.toks]

    def weaker(self, mode=SHALLOW):
        return V({k: max(m, mode) for k, m in self.toks.items()})

    def __repr__(self):
        return f'V({self.toks}{"" if self.const is NOC else " =" + repr(self.const)})'


def union(vals) -> V:
    t: Dict[str, int] = {}
    for v in vals:
        if isinstance(v, V):
            for k, m in v.toks.items():
                t[k] = min(t.get(k, DEEP), m)
    return V(t)


class Obj:
    __slots__ = ('id', 'cls')

    def __init__(self, id, cls):
        self.id, self.cls = id, cls

    def __repr__(self):
        return f'<{self.id}:{self.cls.name}>'


class Dead(Exception):
    pass


def alternatives(s):
    """f(a if c else b)  ->  c, f(a), f(b)"""
    c = s.value if isinstance(s, (ast.Expr, ast.Assign)) else None
    if isinstance(c, ast.IfExp):
        sides = [c.body, c.orelse]
    elif isinstance(c, ast.Call):
        k = next((i for i, a in enumerate(c.args) if isinstance(a, ast.IfExp)), None)
        if k is None:
            return None
        sides = []
        for x in (c.args[k].body, c.args[k].orelse):
            d = copy.copy(c)
            d.args = c.args[:k] + [x] + c.args[k + 1:]
            sides.append(d)
        c = c.args[k]
    else:
        return None
    res = []
    for x in sides:
        d = copy.copy(s)
        d.value = x
        res.append(d)
    return c.test, res[0], res[1]


class State:
    def __init__(self):
        self.heap: Dict[str, Dict[str, object]] = {}
        self.neutral = set()
        self.ev = set()          # facts raised by hooks, must on every path

    def fork(self):
        s = State()
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.neutral = set(self.neutral)
        s.ev = set(self.ev)
        return s

    def become(self, o):
        self.heap, self.neutral, self.ev = o.heap, o.neutral, o.ev


class Frame:
    def __init__(self, func, env, depth):
        self.func, self.env, self.depth = func, env, depth
        self.returns = []        # (state, value)
        self.loops = []


class Interp:
    def __init__(self, ix: Index, may: bool):
        self.ix = ix
        self.may = may
        self.created = 0
        self.selfid = 'self'
        self.deepcopies = []     # (call node, func)
        self.ctor_may = True
        self.stack = []

    # ---- joining
    def join_val(self, a, b, na, nb, may, field=None):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj) and a.id == b.id:
                return a
            if a is None:
                return b
            return a if isinstance(a, Obj) else b
        if not isinstance(a, V):
            a = V()
        if not isinstance(b, V):
            b = V()
        t = {}
        for k in set(a.toks) | set(b.toks):
            ina, inb = k in a.toks, k in b.toks
            if ina and inb:
                t[k] = min(a.toks[k], b.toks[k])
            elif may or (ina and k in nb) or (inb and k in na):
                t[k] = a.toks[k] if ina else b.toks[k]
        if field is not None and not may:
            alts = []
            for v, n in ((a, na), (b, nb)):
                for t0 in v.paths():
                    t1 = dict(t0)
                    if field in n:
                        t1.setdefault(field, DEEP)
                    if t1 not in alts:
                        alts.append(t1)
            r = V({k: min(t0[k] for t0 in alts) for k in alts[0] if all(k in t0 for t0 in alts)})
            r.alts = alts
            return r
        if a.elts is not None and b.elts is not None and len(a.elts) == len(b.elts):
            r = V(t)
            r.elts = [self.join_val(x, y, na, nb, may) for x, y in zip(a.elts, b.elts)]
            return r
        c = a.const if (a.const is not NOC and b.const is not NOC and a.const == b.const
                        and type(a.const) is type(b.const)) else NOC
        return V(t, c)

    def join(self, pairs, may):
        """pairs: [(state, env)] -> (state, env)"""
        s, e = pairs[0]
        s = s.fork()
        e = dict(e)
        for s2, e2 in pairs[1:]:
            # two new objects held by the same variable count as one
            ren = {}
            for n, b in e2.items():
                a = e.get(n)
                if isinstance(a, Obj) and isinstance(b, Obj) and a.id != b.id and a.cls is b.cls \
                        and a.id.startswith('new') and b.id.startswith('new'):
                    ren[b.id] = a
            if ren:
                s2 = s2.fork()
                for x, a in ren.items():
                    s2.heap[a.id] = s2.heap.pop(x, {})
                for flds in s2.heap.values():
                    for k, v in flds.items():
                        if isinstance(v, Obj) and v.id in ren:
                            flds[k] = ren[v.id]
                e2 = {n: ren[b.id] if isinstance(b, Obj) and b.id in ren else b for n, b in e2.items()}
            for oid in set(s.heap) | set(s2.heap):
                fa, fb = s.heap.get(oid), s2.heap.get(oid)
                if fa is None or fb is None:
                    s.heap[oid] = dict(fa if fa is not None else fb)
                    continue
                s.heap[oid] = {f: self.join_val(fa.get(f), fb.get(f), s.neutral, s2.neutral, may, f)
                               for f in set(fa) | set(fb)}
            for n in set(e) | set(e2):
                e[n] = self.join_val(e.get(n), e2.get(n), s.neutral, s2.neutral, may)
            s.neutral &= s2.neutral
            s.ev &= s2.ev
        return s, e

    # ---- functions
    def call(self, func: Func, args: Dict[str, object], st: State, depth: int, may=None):
        if depth > MAXDEPTH or func.node in self.stack:
            return V()
        self.stack.append(func.node)
        old = self.may
        if may is not None:
            self.may = may
        fr = Frame(func, dict(args), depth)
        try:
            fell = True
            try:
                self.block(func.node.body, fr, st)
            except Dead:
                fell = False
            outs = list(fr.returns)
            if fell:
                outs.append((st.fork(), V(const=None)))
            if not outs:
                raise Dead
            s, e = self.join([(o, {'$r': v}) for o, v in outs], self.may)
            st.become(s)
            return e['$r']
        finally:
            self.may = old
            self.stack.pop()

    def bind(self, func: Func, pos: List, kw: Dict[str, object], fr, st, self_val=None):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env: Dict[str, object] = {}
        pos = list(pos)
        if self_val is not None and not func.is_static:
            pos.insert(0, self_val)
        star = None
        flat = []
        for p in pos:
            if isinstance(p, tuple) and p and p[0] == '*':
                star = p[1]
                continue
            flat.append(p)
        for n, v in zip(names, flat):
            env[n] = v
        rest = flat[len(names):]
        if a.vararg:
            vals = rest + ([star] if star is not None else [])
            env[a.vararg.arg] = union([v for v in vals]).weaker(SHARED) if vals else V(elts=[])
        elif star is not None:
            for n in names[len(flat):]:
                env[n] = star
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                env[a.kwarg.arg] = union([env.get(a.kwarg.arg, V()), v])
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                d = defaults.get(n)
                env[n] = V(const=d.value) if isinstance(d, ast.Constant) else V()
        if a.kwarg and a.kwarg.arg not in env:
            env[a.kwarg.arg] = V()
        return env

    # ---- statements
    def block(self, body, fr, st):
        for s in body:
            self.stmt(s, fr, st)

    def stmt(self, s, fr, st):
        two = alternatives(s)
        if two is not None and self.truth(two[0], fr, st) is None:
            return self.branch(two[0], [two[1]], [two[2]], fr, st)
        if isinstance(s, ast.Expr):
            self.ev(s.value, fr, st)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, fr, st)
            for t in s.targets:
                self.assign(t, v, fr, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr, st), fr, st)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target, fr, st)
            self.assign(s.target, union([old, self.ev(s.value, fr, st)]), fr, st)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, fr, st) if s.value is not None else V(const=None)
            fr.returns.append((st.fork(), v))
            raise Dead
        elif isinstance(s, ast.Raise):
            raise Dead
        elif isinstance(s, ast.If):
            self.branch(s.test, s.body, s.orelse, fr, st)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop(s, fr, st)
        elif isinstance(s, ast.While):
            self.ev(s.test, fr, st)
            self.loopbody(s.body, fr, st)
            self.block(s.orelse, fr, st)
        elif isinstance(s, ast.Try):
            pre = (st.fork(), dict(fr.env))
            outs = []
            try:
                self.block(s.body + s.orelse, fr, st)
                outs.append((st.fork(), dict(fr.env)))
            except Dead:
                pass
            for h in s.handlers:
                st.become(pre[0].fork())
                fr.env = dict(pre[1])
                self.neutral_handler(s, h, st)
                try:
                    self.block(h.body, fr, st)
                    outs.append((st.fork(), dict(fr.env)))
                except Dead:
                    pass
            if not outs:
                raise Dead
            a, b = self.join(outs, self.may)
            st.become(a)
            fr.env = b
            self.block(s.finalbody, fr, st)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, fr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, fr, st)
            self.block(s.body, fr, st)
        elif isinstance(s, (ast.Break, ast.Continue)):
            if fr.loops:
                fr.loops[-1].append((st.fork(), dict(fr.env)))
            raise Dead
        elif isinstance(s, FUNC):
            f = Func(s, fr.func.module, fr.func.cls, fr.func)
            fr.env[s.name] = ('def', f, fr.env)

    def neutral_handler(self, s, h, st):
        """except AttributeError around a read of self.f: f is absent there"""
        names = {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)} if h.type is not None else set()
        if 'AttributeError' in names:
            for b in s.body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                        st.neutral.add(n.attr)

    def branch(self, test, body, orelse, fr, st):
        c = self.truth(test, fr, st)
        if c is True:
            return self.block(body, fr, st)
        if c is False:
            return self.block(orelse, fr, st)
        self.ev(test, fr, st)
        base = (st.fork(), dict(fr.env))
        outs = []
        for truth, blk in ((True, body), (False, orelse)):
            st.become(base[0].fork())
            fr.env = dict(base[1])
            st.neutral |= self.defaults(test, truth, fr, st)
            try:
                self.block(blk, fr, st)
                outs.append((st.fork(), dict(fr.env)))
            except Dead:
                pass
        if not outs:
            raise Dead
        a, b = self.join(outs, self.may)
        st.become(a)
        fr.env = b

    def defaults(self, test, truth, fr, st):
        """attributes of self known to be empty/absent if test has this truth value"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.defaults(test.operand, not truth, fr, st)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.Or) and not truth) or (isinstance(test.op, ast.And) and truth):
                return set().union(*[self.defaults(v, truth, fr, st) for v in test.values])
            parts = [self.defaults(v, truth, fr, st) for v in test.values]
            return set.intersection(*parts)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r, op = test.left, test.comparators[0], test.ops[0]
            if isinstance(r, ast.Constant) and r.value in (None, False, 0, -1, ''):
                if (isinstance(op, (ast.Is, ast.Eq)) and truth) or (isinstance(op, (ast.IsNot, ast.NotEq))
                                                                   and not truth):
                    return self.reads(l, fr, st)
                if isinstance(op, (ast.Gt, ast.GtE)) and r.value in (0, -1) and not truth:
                    return self.reads(l, fr, st)
                if isinstance(op, (ast.Lt, ast.LtE)) and r.value in (0, -1) and truth:
                    return self.reads(l, fr, st)
            return set()
        if isinstance(test, ast.Call):
            n = dotted(test.func) or ''
            l = n.split('.')[-1]
            if 'placeholder' in l:
                return set().union(*[self.reads(a, fr, st) for a in test.args]) if truth else set()
            if l == 'hasattr' and not truth and len(test.args) == 2 and isinstance(test.args[1], ast.Constant) \
                    and isinstance(self.ev(test.args[0], fr, st), Obj):
                return {test.args[1].value}
            if isinstance(test.func, ast.Attribute) and not test.args:
                o = self.ev(test.func.value, fr, st)
                if isinstance(o, Obj) and o.id == self.selfid and not truth:
                    f = self.ix.lookup(o.cls, test.func.attr)
                    if f is not None:
                        return {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)
                                and isinstance(x.value, ast.Name) and x.value.id == 'self'
                                and isinstance(x.ctx, ast.Load)} - {m for c in self.ix.mro(o.cls) for m in c.methods}
            if l in ('bool', 'len') and not truth and test.args:
                return self.reads(test.args[0], fr, st)
            return set()
        return self.reads(test, fr, st) if not truth else set()

    def reads(self, e, fr, st):
        if isinstance(e, (ast.Attribute, ast.Name)):
            v = self.ev(e, fr, st)
            if isinstance(v, V):
                return set(v.toks)
        if isinstance(e, ast.Call) and dotted(e.func) in ('bool', 'len') and e.args:
            return self.reads(e.args[0], fr, st)
        return set()

    def truth(self, test, fr, st):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t = self.truth(test.operand, fr, st)
            return None if t is None else not t
        if isinstance(test, ast.Constant):
            return bool(test.value)
        if isinstance(test, ast.Name):
            v = fr.env.get(test.id)
            if isinstance(v, V) and v.const is not NOC:
                return bool(v.const)
            if isinstance(v, Obj):
                return True
            return None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, (ast.Name, ast.Attribute)):
            r = test.comparators[0]
            v = self.ev(test.left, fr, st)
            if isinstance(r, ast.Constant):
                if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                    if isinstance(v, V) and v.const is not NOC:
                        return v.const == r.value
                    if isinstance(v, Obj):
                        return False
                if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                    if isinstance(v, V) and v.const is not NOC:
                        return v.const != r.value
                    if isinstance(v, Obj):
                        return True
            else:
                w = self.ev(r, fr, st)
                if isinstance(test.ops[0], (ast.Is, ast.IsNot)) and isinstance(w, Obj):
                    same = isinstance(v, Obj) and v.id == w.id
                    if isinstance(v, Obj) or (isinstance(v, V) and v.const is not NOC):
                        return same == isinstance(test.ops[0], ast.Is)
            return None
        if isinstance(test, ast.Call) and dotted(test.func) == 'isinstance' and len(test.args) == 2:
            v = self.ev(test.args[0], fr, st)
            if isinstance(v, Obj):
                t = test.args[1]
                names = [dotted(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
                if all(names):
                    return any(self.ix.is_subclass(v.cls, n.split('.')[-1]) for n in names)
            if isinstance(v, V) and v.const is NOC and set(v.toks) == {'_children'} and v.kv is None and v.elts is None:
                return dotted(test.args[1]) == 'tuple'      # the children of a node are a tuple (property C07)
            return None
        if isinstance(test, ast.BoolOp):
            ts = [self.truth(v, fr, st) for v in test.values]
            if isinstance(test.op, ast.And):
                return False if False in ts else (True if all(t is True for t in ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        return None

    def loopbody(self, body, fr, st):
        fr.loops.append([])
        outs = []
        try:
            self.block(body, fr, st)
            outs.append((st.fork(), dict(fr.env)))
        except Dead:
            pass
        outs += fr.loops.pop()
        if not outs:
            raise Dead
        a, b = self.join(outs, self.may)
        st.become(a)
        fr.env = b

    def loop(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        elts = it.elts if isinstance(it, V) else None
        if elts is not None and len(elts) <= 60:
            for e in elts:
                self.assign(s.target, e, fr, st)
                self.loopbody(s.body, fr, st)
        else:
            v = V(it.toks) if isinstance(it, V) else V()
            if isinstance(it, V) and it.srcdict and not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                v.srcdict = True
            names = [s.target] if not isinstance(s.target, (ast.Tuple, ast.List)) else s.target.elts
            for n in names:
                self.assign(n, v, fr, st)
            self.loopbody(s.body, fr, st)
        self.block(s.orelse, fr, st)

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            if isinstance(o, Obj):
                self.store(o, t.attr, v, fr, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, V) and v.elts is not None and len(v.elts) == len(t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.assign(x, y, fr, st)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x,
                                V(v.toks) if isinstance(v, V) else V(), fr, st)
        elif isinstance(t, ast.Subscript):
            self.mutate(t.value, [v, self.ev(t.slice, fr, st)], fr, st)

    def store(self, o, attr, v, fr, st):
        f = self.ix.lookup_setter(o.cls, attr)
        if f is not None:
            self.call(f, self.bind(f, [v], {}, fr, st, o), st, fr.depth + 1)
            return
        if o.id != self.selfid:
            st.heap.setdefault(o.id, {})[attr] = v
        elif self.selfid == 'new':
            st.heap.setdefault(o.id, {})[attr] = v

    def load(self, o, attr, fr, st):
        f = self.ix.lookup(o.cls, attr)
        if f is not None:
            if f.is_property:
                return self.call(f, self.bind(f, [], {}, fr, st, o), st, fr.depth + 1)
            return ('meth', o, f)
        flds = st.heap.get(o.id, {})
        if o.id == 'self':
            v = V({attr: SHARED})
            return v
        if attr in flds:
            return flds[attr]
        for c in self.ix.mro(o.cls):
            if attr in c.assigns:
                e = c.assigns[attr]
                return V(const=e.value) if isinstance(e, ast.Constant) else V()
        return V()

    def field_of(self, e, fr, st):
        """(object, attribute) that expression e denotes, following simple properties"""
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, fr, st)
            if isinstance(o, Obj):
                f = self.ix.lookup(o.cls, e.attr)
                if f is not None and f.is_property:
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) \
                                and isinstance(n.value.value, ast.Name) and n.value.value.id == 'self':
                            return o, n.value.attr
                    return None
                return o, e.attr
        return None

    def mutate(self, base, vals, fr, st):
        p = self.field_of(base, fr, st)
        add = union(vals)
        add = V({k: max(m, SHALLOW) for k, m in add.toks.items()})
        if p is not None:
            o, attr = p
            if attr == '__dict__':
                if any(isinstance(v, V) and v.srcdict for v in vals) and o.id != 'self':
                    st.heap.setdefault(o.id, {})['**'] = V(const=True)
                return
            if o.id == 'self':
                return
            old = st.heap.setdefault(o.id, {}).get(attr, V())
            if isinstance(old, V):
                new = union([old, add])
                if old.alts is not None:
                    new.alts = [union([V(t), add]).toks for t in old.alts]
                st.heap[o.id][attr] = new
        elif isinstance(base, ast.Name) and isinstance(fr.env.get(base.id), V):
            fr.env[base.id] = union([fr.env[base.id], add])

    # ---- expressions
    def ev(self, e, fr, st):
        if e is None:
            return V()
        if isinstance(e, ast.Constant):
            return V(const=e.value)
        if isinstance(e, ast.Name):
            if e.id in fr.env:
                return fr.env[e.id]
            g = self.ix.resolve_global(fr.func.module, e.id)
            if g is not None and isinstance(g[1], (ast.Tuple, ast.List)) \
                    and all(isinstance(x, ast.Constant) for x in g[1].elts):
                return V(elts=[V(const=x.value) for x in g[1].elts])
            return V()
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, fr, st)
            if isinstance(o, Obj):
                if e.attr == '__dict__':
                    v = V()
                    v.srcdict = o.id == 'self'
                    return v
                if e.attr == '__class__':
                    return ('class', o.cls)
                return self.load(o, e.attr, fr, st)
            if isinstance(o, V):
                return V(o.toks)
            if isinstance(o, tuple) and o[0] == 'meth' and e.attr == '__name__':
                return V({o[2].name: DEEP})
            return V()
        if isinstance(e, (ast.Tuple, ast.List)):
            vs = [self.ev(x.value if isinstance(x, ast.Starred) else x, fr, st) for x in e.elts]
            r = union(vs).weaker()
            if not any(isinstance(x, ast.Starred) for x in e.elts):
                r.elts = vs
            return r
        if isinstance(e, (ast.Set,)):
            return union([self.ev(x, fr, st) for x in e.elts]).weaker()
        if isinstance(e, ast.Dict):
            r = union([self.ev(x, fr, st) for x in list(e.keys) + list(e.values) if x is not None]).weaker()
            if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
                r.kv = {k.value: self.ev(v, fr, st) for k, v in zip(e.keys, e.values)}
            return r
        if isinstance(e, ast.IfExp):
            c = self.truth(e.test, fr, st)
            if c is True:
                return self.ev(e.body, fr, st)
            if c is False:
                return self.ev(e.orelse, fr, st)
            a, b = self.ev(e.body, fr, st), self.ev(e.orelse, fr, st)
            return self.join_val(a, b, self.defaults(e.test, True, fr, st) | st.neutral,
                                 self.defaults(e.test, False, fr, st) | st.neutral, self.may)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.Or):
                return union([self.ev(x, fr, st) for x in e.values])
            return union([self.ev(x, fr, st) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, fr, st)
            self.assign(e.target, v, fr, st)
            return v
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, fr, st)
            if isinstance(v, V):
                if v.elts is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) \
                        and e.slice.value < len(v.elts):
                    return v.elts[e.slice.value]
                return v.weaker() if isinstance(e.slice, ast.Slice) else V(v.toks)
            return V()
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = dict(fr.env)
            for g in e.generators:
                it = self.ev(g.iter, fr, st)
                names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
                for n in names:
                    fr.env[n] = V(it.toks) if isinstance(it, V) else V()
            if isinstance(e, ast.DictComp):
                r = union([self.ev(e.key, fr, st), self.ev(e.value, fr, st)])
            else:
                r = self.ev(e.elt, fr, st)
                if not isinstance(r, V):
                    r = V()
            fr.env = env
            return r.weaker()
        if isinstance(e, (ast.BinOp,)):
            return union([self.ev(e.left, fr, st), self.ev(e.right, fr, st)]).weaker()
        if isinstance(e, ast.UnaryOp):
            return union([self.ev(e.operand, fr, st)]).weaker()
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                self.ev(x, fr, st)
            return V()
        if isinstance(e, ast.JoinedStr):
            return union([self.ev(x.value, fr, st) for x in e.values if isinstance(x, ast.FormattedValue)]).weaker()
        if isinstance(e, ast.Starred):
            return self.ev(e.value, fr, st)
        if isinstance(e, ast.Call):
            return self.callexpr(e, fr, st)
        if isinstance(e, ast.Lambda):
            return V()
        return V()

    def args(self, e, fr, st):
        pos = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr, st)
                if isinstance(v, V) and v.elts is not None:
                    pos.extend(v.elts)
                else:
                    pos.append(('*', v))
            else:
                pos.append(self.ev(a, fr, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg:
                kw[k.arg] = v
            elif isinstance(v, V) and v.kv is not None:
                kw.update(v.kv)
        return pos, kw

    def construct(self, cls, pos, kw, fr, st):
        self.created += 1
        o = Obj(f'new{self.created}', cls)
        st.heap[o.id] = {}
        f = self.ix.lookup(cls, '__init__')
        if f is not None:
            self.call(f, self.bind(f, pos, kw, fr, st, o), st, fr.depth + 1, may=self.ctor_may)
        return o

    def callexpr(self, e, fr, st):
        d = dotted(e.func) or ''
        l = d.split('.')[-1] if d else (e.func.attr if isinstance(e.func, ast.Attribute) else '')
        if l == 'deepcopy' and e.args:
            v = self.ev(e.args[0], fr, st)
            memo = self.ev(e.args[1], fr, st) if len(e.args) > 1 else \
                next((self.ev(k.value, fr, st) for k in e.keywords if k.arg == 'memo'), None)
            self.deepcopies.append((e, fr.func, v, memo))
            return v.weaker(DEEP) if isinstance(v, V) else V()
        if d == 'copy.copy' and e.args:
            v = self.ev(e.args[0], fr, st)
            return v.weaker() if isinstance(v, V) else V()
        if d == 'type' and len(e.args) == 1:
            v = self.ev(e.args[0], fr, st)
            return ('class', v.cls) if isinstance(v, Obj) else V()
        if d == 'vars' and e.args:
            v = self.ev(e.args[0], fr, st)
            r = V()
            r.srcdict = isinstance(v, Obj) and v.id == 'self'
            return r
        if d == 'super' or (isinstance(e.func, ast.Name) and e.func.id == 'super'):
            me = fr.env.get('self')
            if isinstance(me, Obj):
                return ('super', me, fr.func.cls)
            return V()
        if d in ('getattr', 'setattr', 'hasattr') and e.args:
            o = self.ev(e.args[0], fr, st)
            k = self.ev(e.args[1], fr, st) if len(e.args) > 1 else V()
            name = k.const if isinstance(k, V) else NOC
            if d == 'getattr' and isinstance(o, Obj):
                if isinstance(name, str):
                    return self.load(o, name, fr, st)
                return union([k])
            if d == 'setattr' and isinstance(o, Obj) and len(e.args) > 2:
                v = self.ev(e.args[2], fr, st)
                if isinstance(name, str):
                    self.store(o, name, v, fr, st)
                elif isinstance(k, V) and k.srcdict and o.id != 'self':
                    st.heap.setdefault(o.id, {})['**'] = V(const=True)
            return V()
        if l == '__getattribute__' and isinstance(e.func, ast.Attribute) and e.args:
            return union([self.ev(a, fr, st) for a in e.args])
        # what is called
        fv = None
        if isinstance(e.func, ast.Name):
            fv = fr.env.get(e.func.id)
        elif isinstance(e.func, (ast.Call, ast.Subscript, ast.IfExp)):
            fv = self.ev(e.func, fr, st)
        elif isinstance(e.func, ast.Attribute):
            base = e.func.value
            if isinstance(base, ast.Call) and dotted(base.func) == 'super':
                me = None
                for n in ('self', 'cls'):
                    if isinstance(fr.env.get(n), Obj):
                        me = fr.env[n]
                if base.args and len(base.args) == 2:
                    o2 = self.ev(base.args[1], fr, st)
                    me = o2 if isinstance(o2, Obj) else me
                if me is not None and fr.func.cls is not None:
                    f = self.ix.lookup_super(me.cls, fr.func.cls, e.func.attr)
                    pos, kw = self.args(e, fr, st)
                    if f is not None:
                        return self.call(f, self.bind(f, pos, kw, fr, st, me), st, fr.depth + 1)
                return V()
            bv = self.ev(base, fr, st)
            if isinstance(bv, Obj):
                if e.func.attr == '__class__':
                    fv = ('class', bv.cls)
                else:
                    fv = self.load(bv, e.func.attr, fr, st)
            elif isinstance(bv, V):
                c = self.ix.find_class(fr.func.module, base.id) if isinstance(base, ast.Name) \
                    and base.id not in fr.env else None
                if c is not None:
                    f = self.ix.lookup(c, e.func.attr)
                    if f is not None:
                        pos, kw = self.args(e, fr, st)
                        return self.call(f, self.bind(f, pos, kw, fr, st, None), st, fr.depth + 1)
                pos, kw = self.args(e, fr, st)
                vals = [p[1] if isinstance(p, tuple) and p and p[0] == '*' else p for p in pos] + list(kw.values())
                if e.func.attr in ('update', 'extend', 'append', 'add', 'insert', 'setdefault', 'appendleft',
                                   '__setitem__'):
                    self.mutate(base, vals, fr, st)
                    return V()
                if e.func.attr in ('items', 'values', 'keys', 'get'):
                    r = V(bv.toks)
                    r.srcdict = bv.srcdict
                    return r
                return union([bv] + vals).weaker()
        if isinstance(fv, tuple) and fv[0] == 'class':
            pos, kw = self.args(e, fr, st)
            return self.construct(fv[1], pos, kw, fr, st)
        if isinstance(fv, tuple) and fv[0] == 'meth':
            pos, kw = self.args(e, fr, st)
            return self.call(fv[2], self.bind(fv[2], pos, kw, fr, st, fv[1]), st, fr.depth + 1)
        if isinstance(fv, tuple) and fv[0] == 'def':
            pos, kw = self.args(e, fr, st)
            env = dict(fv[2])
            env.update(self.bind(fv[1], pos, kw, fr, st, None))
            return self.call(fv[1], env, st, fr.depth + 1)
        pos, kw = self.args(e, fr, st)
        vals = [p[1] if isinstance(p, tuple) and p and p[0] == '*' else p for p in pos] + list(kw.values())
        if l in PASS and vals:
            return vals[-1]
        if l in ('reversed', 'iter') and vals and isinstance(vals[0], V):
            r = V(vals[0].toks)
            r.srcdict = vals[0].srcdict
            return r
        if isinstance(e.func, ast.Name) and fv is None:
            if e.func.id in COPYING:
                r = union(vals).weaker()
                if len(vals) == 1 and isinstance(vals[0], V) and vals[0].elts is not None:
                    r.elts = vals[0].elts
                if e.func.id == 'dict' and not pos:
                    r.kv = kw
                return r
            c = self.ix.find_class(fr.func.module, e.func.id)
            if c is not None and any(isinstance(v, Obj) for v in vals) is False and self.family(c):
                return self.construct(c, pos, kw, fr, st)
            f = self.ix.resolve_func(fr.func.module, e.func.id)
            if f is not None and (any(isinstance(v, Obj) for v in vals)
                                  or any(isinstance(v, V) and v.toks for v in vals) and fr.depth < 4):
                return self.call(f, self.bind(f, pos, kw, fr, st, None), st, fr.depth + 1)
        return union(vals).weaker()

    family_root: Optional[Class] = None

    def family(self, c):
        return self.family_root is not None and (self.family_root in self.ix.mro(c) or c in
                                                 self.ix.mro(self.family_root))
