"""Kinds of values: a flow-sensitive, interprocedural inference of what sort of value an expression denotes
(text, node, tuple of nodes, list, generator, None, number ...), with narrowing by tests.  Annotations of parameters
and of functions of the package are taken at their word; return values are checked against them by the caller of this module."""
from __future__ import annotations
import ast
from typing import Dict, List, Optional, Tuple
from sa.src import Index, Func, FUNC, dotted, unparse


class K:
    """a set of kinds; e: kind of the elements; items: kinds of the parts of a fixed tuple"""
    __slots__ = ('a', 'e', 'items', 'vid', 'fn')

    def __init__(self, a, e=None, items=None, vid=None, fn=()):
        self.a, self.e, self.items, self.vid, self.fn = frozenset(a), e, items, vid, fn

    def __eq__(self, o):
        return isinstance(o, K) and self.a == o.a and self.e == o.e and self.items == o.items

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        s = '|'.join(sorted(self.a)) or 'never'
        if self.items is not None:
            return s + '(' + ', '.join(map(repr, self.items)) + ')'
        return s + (f'[{self.e!r}]' if self.e is not None else '')

    def only(self, *names):
        return bool(self.a) and self.a <= set(names)

    def named(self, vid):
        return K(self.a, self.e, self.items, vid, self.fn)

    def minus(self, *names):
        return K(self.a - set(names), self.e, self.items, self.vid, self.fn)

    def keep(self, *names):
        return K(self.a & set(names), self.e, self.items, self.vid, self.fn)


ANY = K({'?'})
STR = K({'str'})
NODE = K({'node'})
NONE = K({'none'})
INT = K({'int'})
NODES = K({'tuple'}, NODE)
RESULT = K({'tuple', 'str'}, NODE)
EMPTY = K({'tuple'}, K(()), ())


def join(a: Optional[K], b: Optional[K], d=0) -> Optional[K]:
    if a is None:
        return b
    if b is None or a is b:
        return a
    e = None
    ae, be = parts(a), parts(b)
    if d < 4:
        e = join(ae, be, d + 1)
    items = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items) and d < 4:
        items = tuple(join(x, y, d + 1) for x, y in zip(a.items, b.items))
    elif a.items is not None and not b.a & {'tuple'}:
        items = a.items
    elif b.items is not None and not a.a & {'tuple'}:
        items = b.items
    return K(a.a | b.a, e, items, a.vid if a.vid == b.vid else None,
             a.fn + tuple(x for x in b.fn if all(x[0] is not y[0] for y in a.fn)))


def elem(k: K, default=ANY) -> Optional[K]:
    if k.items is not None:
        r = None
        for x in k.items:
            r = join(r, x)
        r = r if r is not None else (k.e if k.e is not None else K(()))
        return r
    if k.e is not None:
        return k.e
    if k.a == {'str'}:
        return STR
    return default


def parts(k: K) -> Optional[K]:
    return elem(k, None) if k.e is not None or k.items is not None else None


class Env(dict):
    def __init__(self, d=(), parent=None):
        super().__init__(d)
        self.parent = parent

    def copy_(self):
        return Env(self, self.parent)

    def find(self, n):
        e = self
        while e is not None:
            if n in e:
                return e[n]
            e = e.parent
        return None


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = Env({}, a.parent)
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if '.!' in k:
            r[k] = join(x, y) if x is not None and y is not None else x if y is None else y
        elif '.' in k or '[' in k:
            if x is not None and y is not None:
                r[k] = join(x, y)
        else:
            r[k] = join(x, y)
    return r


STRMETH = {'strip', 'lstrip', 'rstrip', 'replace', 'upper', 'lower', 'join', 'format', 'title', 'casefold', 'capitalize',
           'center', 'ljust', 'rjust', 'zfill', 'expandtabs', 'translate', 'decode', 'group', 'getvalue', 'read', 'readline',
           'removeprefix', 'removesuffix', 'swapcase'}
INTMETH = {'find', 'rfind', 'index', 'rindex', 'count', 'startswith', 'endswith', 'isalpha', 'isdigit', 'isspace', 'isupper',
           'islower', 'isalnum', 'isidentifier', 'start', 'end', 'strlen', 'fileno', 'tell'}
ATTRS = {'_children': NODES, 'children': NODES, '_result': RESULT, 'result': RESULT, 'content': STR, 'name': STR, 'pos': INT,
         '_pos': INT, 'node_name': STR, 'pname': STR, 'ptype': STR, 'attr': K({'dict'}, STR), 'symbol': ANY}


class Kinds:
    def __init__(self, ix: Index, node_classes, visitor=None):
        self.ix = ix
        self.node_classes = set(node_classes)
        self.visitor = visitor          # called with (event, func, ast node, ...)
        self.ret: Dict[int, K] = {}
        self.active = set()
        self.anns: Dict = {}
        self.final = False
        self.by_paths = None            # functions to be analysed path by path
        self.alias = None
        self.implied = None             # further facts that follow from a test
        self.own_attrs: Dict[str, Dict[str, K]] = {}
        self.any_attr: Dict[str, K] = {}
        self.comments: Dict = {}
        self._collect_attrs()

    # -- annotations --------------------------------------------------------------------------

    def ann(self, a, d=0) -> Optional[K]:
        if a is None or d > 6:
            return None
        if isinstance(a, ast.Constant):
            if a.value is None:
                return NONE
            if isinstance(a.value, str):
                try:
                    return self.ann(ast.parse(a.value, mode='eval').body, d + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = self.ann(a.left, d + 1), self.ann(a.right, d + 1)
            return join(l, r) if l is not None and r is not None else None
        n = (dotted(a) or '').split('.')[-1]
        if n:
            if n in self.node_classes:
                return NODE
            k = {'str': STR, 'StringView': STR, 'AnyStr': STR, 'int': INT, 'bool': INT, 'float': INT, 'None': NONE,
                 'ResultType': join(RESULT, NODE), 'StrictResultType': RESULT, 'ChildrenType': NODES,
                 'list': K({'list'}), 'List': K({'list'}), 'tuple': K({'tuple'}, ANY), 'Tuple': K({'tuple'}, ANY),
                 'dict': K({'dict'}), 'Dict': K({'dict'}), 'set': K({'set'}), 'Path': K({'list'}, NODE),
                 'ErrorCode': INT, 'slice': K({'slice'}), 'Callable': K({'obj'})}.get(n)
            if k is not None:
                return k
            if n in ('Any', 'object'):
                return ANY
            for m in self.ix.modules.values():
                for st in m.tree.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == n and \
                            st.value is not None and (dotted(st.annotation) or '').endswith('TypeAlias'):
                        return self.ann(st.value, d + 1)
                    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and \
                            st.targets[0].id == n and isinstance(st.value, ast.Subscript):
                        return self.ann(st.value, d + 1)
                if n in m.classes:
                    return K({'obj'})
            return None
        if isinstance(a, ast.Subscript):
            h = (dotted(a.value) or '').split('.')[-1]
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h == 'Union':
                r = None
                for x in args:
                    k = self.ann(x, d + 1)
                    if k is None:
                        return None
                    r = join(r, k)
                return r
            if h == 'Optional':
                k = self.ann(args[0], d + 1)
                return join(k, NONE) if k is not None else None
            if h in ('Tuple', 'tuple'):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is ...:
                    return K({'tuple'}, self.ann(args[0], d + 1) or ANY)
                if len(args) == 1:       # Tuple[Node] is commonly used for tuples of any length
                    return K({'tuple'}, self.ann(args[0], d + 1) or ANY)
                return K({'tuple'}, None, tuple(self.ann(x, d + 1) or ANY for x in args))
            if h in ('List', 'list', 'MutableSequence'):
                return K({'list'}, self.ann(args[0], d + 1) or ANY)
            if h in ('Iterator', 'Generator'):
                return K({'gen'}, self.ann(args[0], d + 1) or ANY)
            if h in ('Iterable', 'Sequence', 'Collection', 'Container'):
                return K({'seq'}, self.ann(args[0], d + 1) or ANY)
            if h in ('Set', 'FrozenSet', 'AbstractSet', 'MutableSet', 'set', 'frozenset'):
                return K({'set'}, self.ann(args[0], d + 1) or ANY)
            if h in ('Dict', 'dict', 'Mapping', 'OrderedDict', 'MutableMapping'):
                return K({'dict'}, self.ann(args[-1], d + 1) or ANY)
            if h == 'Callable':
                return K({'obj'})
        return None

    def _collect_attrs(self):
        """annotated attributes of classes"""
        for c in self.ix.all_classes():
            d = {}
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    k = self.ann(st.annotation)
                    if k is not None:
                        d[st.target.id] = k
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and \
                            dotted(n.targets[0].value) == 'self':
                        k = self.comment(f.module, n)
                        if k is None and f.node.name == '__init__' and isinstance(n.value, ast.Name):
                            # a parameter of the constructor, kept as it is
                            pa = [a for a in f.node.args.args + f.node.args.kwonlyargs if a.arg == n.value.id]
                            if pa and pa[0].annotation is not None and not any(
                                    isinstance(x, ast.Name) and x.id == n.value.id and isinstance(x.ctx, ast.Store)
                                    for x in ast.walk(f.node)):
                                k = self.ann(pa[0].annotation)
                                if k is not STR:
                                    k = None
                        if k is not None:
                            d.setdefault(n.targets[0].attr, k)
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and \
                            dotted(n.target.value) == 'self':
                        k = self.ann(n.annotation)
                        if k is not None:
                            d.setdefault(n.target.attr, k)
            self.own_attrs[c.name] = d
        for d in self.own_attrs.values():
            for a, k in d.items():
                self.any_attr[a] = k if a not in self.any_attr or self.any_attr[a] == k else ANY

    def comment(self, module, st):
        """kind declared by a type comment"""
        key = (module.name, st.lineno)
        if key not in self.comments:
            line = module.text.split('\n')[st.end_lineno - 1]
            i = line.find('# type:')
            k = None
            if i >= 0:
                txt = line[i + 7:].split('#')[0].strip()
                try:
                    k = self.ann(ast.parse(txt, mode='eval').body)
                except SyntaxError:
                    k = None
            self.comments[key] = k
        return self.comments[key]

    # -- functions ------------------------------------------------------------------------------

    def run(self):
        fs = list(self.ix.all_functions())
        for rnd in range(3):
            old = dict(self.ret)
            for f in fs:
                self.function(f)
            if old == self.ret:
                break
        self.final = True
        for f in fs:
            self.function(f)

    def function(self, f: Func):
        env = Env()
        a = f.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        defaults = dict(zip([p.arg for p in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        defaults.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        for i, p in enumerate(ps):
            k = self.ann(p.annotation)
            if k is None and i == 0 and f.cls is not None and not f.is_static:
                k = NODE if f.cls.name in self.node_classes and not f.is_classmethod else ANY
            if k is None:
                k = ANY
            d = defaults.get(p.arg)
            if isinstance(d, ast.Constant) and d.value is None:
                k = join(k, NONE)
            env[p.arg] = k.named(('param', f.qual, p.arg))
        if a.vararg is not None:
            env[a.vararg.arg] = K({'tuple'}, self.ann(a.vararg.annotation) or ANY)
        if a.kwarg is not None:
            env[a.kwarg.arg] = K({'dict'}, self.ann(a.kwarg.annotation) or ANY)
        fr = Frame(f, f.node)
        start = env.copy_()
        end = self.block(f.node.body, env, fr)
        if end is not None:
            fr.ret = join(fr.ret, NONE)
            self.emit('exit', fr, f.node, end)
        if self.final and self.by_paths is not None and self.by_paths(f):
            self.paths(f, start)
        r = fr.ret if fr.ret is not None else K(())
        if fr.yields is not None:
            r = K({'gen'}, fr.yields)
        if any(isinstance(d, ast.Name) and d.id in ('property', 'cached_property') for d in f.node.decorator_list):
            pass
        declared = self.ann(f.node.returns)
        self.ret[id(f.node)] = declared if declared is not None else r

    def paths(self, f, start):
        """every path through the branches of a function on its own"""
        import itertools
        ifs = [n for n in ast.walk(f.node) if isinstance(n, (ast.If, ast.IfExp))]
        if len(ifs) > 9:
            ifs = [n for n in ifs if isinstance(n, ast.If)][:9]
        for choice in itertools.product((True, False), repeat=len(ifs)):
            fr = Frame(f, f.node)
            fr.choose = {id(n): c for n, c in zip(ifs, choice)}
            end = self.block(f.node.body, start.copy_(), fr)
            if end is not None:
                self.emit('path', fr, f.node, end)

    def emit(self, what, fr, node, *args):
        if self.visitor is not None and self.final:
            self.visitor(what, fr, node, *args)

    # -- statements -----------------------------------------------------------------------------

    def block(self, body, env, fr):
        for st in body:
            env = self.stmt(st, env, fr)
            if env is None:
                return None
        return env

    def merge(self, env, res):
        if res is None:
            return None
        env.clear()
        env.update(res)
        return env

    def stmt(self, st, env: Env, fr):
        if isinstance(st, ast.Expr):
            self.ev(st.value, env, fr)
            self.mutation(st.value, env, fr)
        elif isinstance(st, ast.Assign):
            if isinstance(st.value, (ast.Tuple, ast.List)) and any(
                    isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts) for t in st.targets) and \
                    not any(isinstance(x, ast.Starred) for x in st.value.elts):
                vs = [self.ev(x, env, fr) for x in st.value.elts]
                for t in st.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(vs):
                        for x, v, y in zip(t.elts, vs, st.value.elts):
                            self.assign(x, v, env, fr, st, y)
                    else:
                        self.assign(t, K({'tuple'}, None, tuple(vs)), env, fr, st, st.value)
                return env
            v = self.ev(st.value, env, fr)
            if '?' in v.a or v.a == {'list'} and v.e is None:
                k = self.comment(fr.func.module, st)
                if k is not None and '?' not in k.a:
                    v = K(k.a, k.e, k.items, v.vid, v.fn)
            for t in st.targets:
                self.assign(t, v, env, fr, st, st.value)
        elif isinstance(st, ast.AnnAssign):
            k = self.ann(st.annotation)
            if st.value is not None:
                v = self.ev(st.value, env, fr)
                if k is not None and ('?' in v.a or v.a <= k.a):
                    v = K(k.a if '?' in v.a else v.a, v.e if v.e is not None and '?' not in v.a and v.e.a else k.e,
                          v.items if v.items else k.items, v.vid, v.fn)
                self.assign(st.target, v, env, fr, st, st.value)
            elif isinstance(st.target, ast.Name) and k is not None:
                env[st.target.id] = k
        elif isinstance(st, ast.AugAssign):
            old = self.ev(self.load(st.target), env, fr)
            v = self.binop(st.op, old, self.ev(st.value, env, fr), st)
            if old.a == {'list'} and isinstance(st.op, ast.Add):
                v = K({'list'}, join(elem(old, None), elem(v, None)))
            self.assign(st.target, v, env, fr, st, None)
        elif isinstance(st, ast.Return):
            v = self.ev(st.value, env, fr) if st.value is not None else NONE
            fr.ret = join(fr.ret, v)
            self.emit('return', fr, st, v, env)
            self.emit('path' if fr.choose is not None else 'exit', fr, st, env)
            return None
        elif isinstance(st, ast.If):
            self.ev(st.test, env, fr)
            if fr.choose is not None and id(st) in fr.choose:
                c = fr.choose[id(st)]
                r = self.block(st.body if c else st.orelse, self.narrow(st.test, env.copy_(), c, fr), fr)
                return self.merge(env, r)
            a = self.block(st.body, self.narrow(st.test, env.copy_(), True, fr), fr)
            b = self.block(st.orelse, self.narrow(st.test, env.copy_(), False, fr), fr)
            return self.merge(env, join_env(a, b))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env, fr)
            return self.loop(st, env, fr, it)
        elif isinstance(st, ast.While):
            return self.loop(st, env, fr, None)
        elif isinstance(st, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            start = env.copy_()
            fr.tries.append([])
            a = self.block(st.body, env.copy_(), fr)
            seen = fr.tries.pop()
            mid = join_env(start, a) if a is not None else start
            for x in seen:
                mid = join_env(mid, x)
            outs = []
            if a is not None:
                a = self.block(st.orelse, a, fr)
                outs.append(a)
            for h in st.handlers:
                e = mid.copy_()
                if h.name:
                    e[h.name] = K({'obj'})
                outs.append(self.block(h.body, e, fr))
            r = None
            for o in outs:
                r = join_env(r, o)
            if st.finalbody:
                x = self.block(st.finalbody, (r if r is not None else mid).copy_(), fr)
                r = x if r is not None else None
            return self.merge(env, r)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                v = self.ev(it.context_expr, env, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, ANY, env, fr, st, None)
            return self.block(st.body, env, fr)
        elif isinstance(st, ast.Raise):
            if st.exc is not None:
                self.ev(st.exc, env, fr)
            self.emit('raise', fr, st, env)
            return None
        elif isinstance(st, ast.Assert):
            self.ev(st.test, env, fr)
            return self.merge(env, self.narrow(st.test, env.copy_(), True, fr))
        elif isinstance(st, ast.Break):
            if fr.loops:
                fr.loops[-1][0].append(env.copy_())
            return None
        elif isinstance(st, ast.Continue):
            if fr.loops:
                fr.loops[-1][1].append(env.copy_())
            return None
        elif isinstance(st, FUNC):
            env[st.name] = K({'obj'}, fn=((st, env),))
            self.nested(st, env, fr)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(st, getattr(ast, 'Match', ())):
            self.ev(st.subject, env, fr)
            r = None
            for c in st.cases:
                e = env.copy_()
                for n in ast.walk(c.pattern):
                    nm = getattr(n, 'name', None) or getattr(n, 'rest', None)
                    if isinstance(nm, str):
                        e[nm] = ANY
                r = join_env(r, self.block(c.body, e, fr))
            return self.merge(env, join_env(r, env.copy_()))
        if fr.tries:
            for t in fr.tries:
                t.append(env.copy_())
        return env

    def nested(self, st, env, fr):
        """inference for a nested function; variables of the enclosing function as they are where it is defined"""
        e = Env({}, env)
        a = st.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            e[p.arg] = (self.ann(p.annotation) or ANY).named(('param', st.name, p.arg))
        if a.vararg is not None:
            e[a.vararg.arg] = K({'tuple'}, ANY)
        if a.kwarg is not None:
            e[a.kwarg.arg] = K({'dict'}, ANY)
        # variables of the enclosing function may change until the call
        for n in ast.walk(st):
            if isinstance(n, ast.Nonlocal):
                for x in n.names:
                    e[x] = ANY
        sub = Frame(fr.func, st)
        assigned = {}
        for n in ast.walk(fr.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned[n.id] = assigned.get(n.id, 0) + 1
        local = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and n.id not in e and n.id not in local and assigned.get(n.id, 0) > 1:
                known = env.find(n.id)
                e[n.id] = ANY if known is None or '?' in known.a else K(known.a | {'?'}, known.e)
        end = self.block(st.body, e, sub)
        if end is not None:
            sub.ret = join(sub.ret, NONE)
            self.emit('exit', sub, st, end)
        r = sub.ret if sub.ret is not None else K(())
        if sub.yields is not None:
            r = K({'gen'}, sub.yields)
        self.ret[id(st)] = self.ann(st.returns) or r

    def loop(self, st, env, fr, it):
        isfor = it is not None
        broke = None
        always = not isfor and isinstance(st.test, ast.Constant) and bool(st.test.value)
        cur = env.copy_()
        for _ in range(4):
            before = dict(cur)
            body = cur.copy_()
            fr.loops.append(([], []))
            if isfor:
                self.assign(st.target, elem(it).named(None), body, fr, st, None)
            else:
                self.ev(st.test, body, fr)
                body = self.narrow(st.test, body, True, fr)
            b = self.block(st.body, body, fr)
            brk, cont = fr.loops.pop()
            for x in cont:
                b = join_env(b, x)
            for x in brk:
                broke = join_env(broke, x)
            cur = join_env(cur, b)
            if dict(cur) == before:
                break
        out = None if always else cur
        if out is not None and not isfor:
            out = self.narrow(st.test, out.copy_(), False, fr)
        if st.orelse and out is not None:
            out = self.block(st.orelse, out.copy_(), fr)
        return self.merge(env, join_env(out, broke))

    def load(self, t):
        n = ast.parse(unparse(t, 10000), mode='eval').body
        for x in ast.walk(n):
            ast.copy_location(x, t)
        return n

    def kill(self, env, name):
        """a variable or attribute has changed: forget what was known about its attributes"""
        for k in list(env):
            if k.startswith(name + '.') or k.startswith(name + '['):
                del env[k]

    def assign(self, t, v: K, env: Env, fr, st, expr):
        if isinstance(t, ast.Name):
            self.kill(env, t.id)
            fr.count += 1
            env[t.id] = v if v.vid is not None else v.named((fr.node.name if hasattr(fr.node, 'name') else '', fr.count))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, K({'list'}, elem(v)), env, fr, st, None)
                elif v.items is not None and len(v.items) == len(t.elts) and v.a <= {'tuple'}:
                    self.assign(x, v.items[i], env, fr, st, None)
                else:
                    self.assign(x, elem(v), env, fr, st, None)
        elif isinstance(t, ast.Attribute):
            r = self.ev(t.value, env, fr)
            self.emit('store', fr, t, r, v, env, expr)
            base = unparse(t.value, 200)
            if t.attr in ('_result', '_children', 'result'):
                for k in list(env):
                    if k.endswith('._result') or k.endswith('._children') or k.endswith('.children') or k.endswith('.result'):
                        if k.rsplit('.', 1)[0] != base and t.attr == 'result':
                            del env[k]
            if t.attr == 'result':
                env[f'{base}.!set'] = STR
                for x in ('_result', '_children', 'children', 'result', '!_result', '!_children', '!leaf'):
                    env.pop(f'{base}.{x}', None)
            else:
                if v.vid is None:
                    fr.count += 1
                    v = v.named((getattr(fr.node, 'name', ''), 'a', fr.count))
                if t.attr in ('_result', '_children'):
                    leaf = env.get(f'{base}._children')
                    env[f'{base}.!{t.attr}'] = v
                    if t.attr == '_result' and leaf is not None and leaf.items == () and f'{base}.!_children' not in env:
                        env[f'{base}.!leaf'] = STR
                env[f'{base}.{t.attr}'] = v
        elif isinstance(t, ast.Subscript):
            r = self.ev(t.value, env, fr)
            self.ev(t.slice, env, fr)
            self.emit('setitem', fr, t, r, v, env)
            if isinstance(t.value, ast.Name) and t.value.id in env:
                old = env[t.value.id]
                i = self.ev(t.slice, env, fr)
                if isinstance(t.slice, ast.Slice) or i.a == {'slice'}:
                    x = elem(v, None)
                elif 'slice' in i.a:
                    x = join(v, elem(v, None))
                else:
                    x = v
                if old.a <= {'list', 'dict'}:
                    env[t.value.id] = K(old.a, join(elem(old, None), x), None, old.vid)

    def mutation(self, e, env, fr):
        """xs.append(x) ..."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.args:
            b = e.func.value
            n = e.func.attr
            if n in ('append', 'appendleft', 'add', 'insert', 'extend', 'extendleft') and isinstance(b, ast.Name):
                old = env.find(b.id)
                if old is None:
                    return
                x = self.ev(e.args[-1], env, fr)
                if n in ('extend', 'extendleft'):
                    x = elem(x, None)
                if old.a <= {'list', 'set'} and b.id in env:
                    env[b.id] = K(old.a, join(elem(old, None), x), None, old.vid)

    # -- narrowing --------------------------------------------------------------------------------

    def narrow(self, t, env: Env, truth: bool, fr) -> Env:
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, env, not truth, fr)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == truth:
                for x in t.values:
                    env = self.narrow(x, env, truth, fr)
                return env
            r = None
            cur = env
            for x in t.values:
                r = join_env(r, self.narrow(x, cur.copy_(), truth, fr))
                cur = self.narrow(x, cur.copy_(), not truth, fr)
            return r if r is not None else env
        if isinstance(t, ast.NamedExpr):
            return self.narrow(t.target, env, truth, fr)
        if isinstance(t, ast.Call) and dotted(t.func) == 'isinstance' and len(t.args) == 2:
            names = [dotted(x).split('.')[-1] for x in (t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]])
                     if dotted(x)]
            ks = set()
            for n in names:
                ks |= {'str'} if n in ('str', 'StringView') else {'node'} if n in self.node_classes else {'tuple'} \
                    if n == 'tuple' else {'list'} if n == 'list' else {'int'} if n in ('int', 'bool', 'float') else \
                    {'dict'} if n == 'dict' else {'slice'} if n == 'slice' else {'seq', 'list', 'tuple'} if n in (
                        'Sequence', 'Iterable', 'Collection') else {'set'} if n in ('set', 'frozenset') else {'?', 'obj'}
            cur = self.lookup(t.args[0], env, fr)
            if cur is not None:
                if truth:
                    if '?' in cur.a and '?' not in ks:
                        new = K(ks - {'?'}, cur.e or (ANY if ks & {'tuple', 'list'} else None), None, cur.vid)
                    elif '?' in ks:
                        new = cur
                    else:
                        if 'seq' in cur.a and ks & {'list', 'tuple'}:
                            new = K(cur.a & ks | ks & {'list', 'tuple'} | ({'seq'} if 'seq' in ks else set()),
                                    cur.e, cur.items, cur.vid)
                        elif cur.a & ks:
                            new = K(cur.a & ks, cur.e, cur.items, cur.vid)
                        else:
                            if not cur.a & {'?', 'obj', 'seq'}:
                                env['dead.'] = INT
                            new = K(ks, cur.e if 'tuple' in ks else None, None, cur.vid)
                elif '?' in ks:
                    new = cur
                else:
                    full = ks if names not in (['StringView'], ['str']) else set()
                    strictly = full - {'node'} if not {'Node'} & set(names) else full
                    new = K(cur.a - strictly, cur.e, cur.items, cur.vid)
                    if cur.a and not new.a:
                        env['dead.'] = INT
                self.refine(t.args[0], new, env)
                if truth and 'tuple' in ks and len(ks) == 1:
                    self.know(t.args[0], env, True)
                if truth and ks == {'str'}:
                    self.know(t.args[0], env, False)
            return env
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r, op = t.left, t.comparators[0], t.ops[0]
            if isinstance(r, ast.Constant) and r.value is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                isnone = isinstance(op, (ast.Is, ast.Eq)) == truth
                cur = self.lookup(l, env, fr)
                if cur is not None and (cur.a != {'none'} or isnone):
                    self.refine(l, cur.keep('none', '?') if isnone and 'none' in cur.a else cur if isnone
                                else cur.minus('none'), env)
                return env
            if isinstance(l, ast.Call) and dotted(l.func) == 'len' and l.args and isinstance(r, ast.Constant):
                pos = isinstance(op, ast.Gt) and r.value >= 0 or isinstance(op, ast.GtE) and r.value >= 1 or \
                    isinstance(op, ast.Eq) and r.value >= 1
                neg = isinstance(op, (ast.LtE,)) and r.value == 0 or isinstance(op, ast.Lt) and r.value == 1 or \
                    isinstance(op, ast.Eq) and r.value == 0
                if pos and truth or neg and not truth:
                    return self.narrow(l.args[0], env, True, fr)
                if neg and truth or isinstance(op, ast.Gt) and r.value == 0 and not truth:
                    return self.narrow(l.args[0], env, False, fr)
            return env
        if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
            if self.implied is not None:
                self.implied(t, truth, env, fr)
            cur = self.lookup(t, env, fr)
            if cur is not None:
                if cur.a and cur.a <= ({'none'} if truth else {'node'}) or cur.a == {'tuple'} and cur.items is not None and \
                        bool(cur.items) != truth:
                    env['dead.'] = INT
                if truth:
                    self.refine(t, cur.minus('none') if cur.a != {'none'} else cur, env)
                    if isinstance(t, ast.Name) and cur.vid and cur.vid[0] == 'attr' and isinstance(cur.vid[1], str) and cur.vid[1].endswith('children'):
                        # x = node._children;  if x: ...
                        base = cur.vid[1].rsplit('.', 1)[0]
                        env[base + '._result'] = NODES.named(('attr', base + '._children'))
                elif isinstance(t, ast.Name) and cur.vid and cur.vid[0] == 'attr' and isinstance(cur.vid[1], str) and cur.vid[1].endswith('children'):
                    base = cur.vid[1].rsplit('.', 1)[0]
                    env[base + '._result'] = STR
                    env[base + '._children'] = EMPTY
            self.know(t, env, truth)
        return env

    def know(self, t, env, truth):
        """node._children is (not) empty"""
        if isinstance(t, ast.Attribute) and (t.attr in ('_children', 'children') or truth is not None and
                                             t.attr in ('_result', 'result') and not isinstance(truth, str)):
            base = unparse(t.value, 200)
            if t.attr in ('_children', 'children'):
                if truth:
                    env[base + '._result'] = NODES.named(('attr', base + '._children'))
                else:
                    env[base + '._result'] = STR
                    env[base + '._children'] = EMPTY

    def lookup(self, t, env, fr):
        if isinstance(t, ast.Name):
            return env.find(t.id)
        if isinstance(t, ast.NamedExpr):
            return env.find(t.target.id)
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            return self.ev(t, env, fr)
        return None

    def refine(self, t, k, env):
        if isinstance(t, ast.NamedExpr):
            t = t.target
        if isinstance(t, ast.Name):
            env[t.id] = k
        elif isinstance(t, ast.Attribute):
            base = unparse(t.value, 200)
            a = {'result': '_result', 'children': '_children'}.get(t.attr, t.attr)
            env[f'{base}.{a}'] = k
        elif isinstance(t, ast.Subscript):
            env[unparse(t, 200)] = k

    # -- expressions ------------------------------------------------------------------------------

    def ev(self, e, env: Env, fr) -> K:
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x, env, fr)
            return ANY
        return m(e, env, fr)

    def ev_Constant(self, e, env, fr):
        v = e.value
        return NONE if v is None else STR if isinstance(v, (str, bytes)) else INT if isinstance(v, (int, float)) else ANY

    def ev_JoinedStr(self, e, env, fr):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value, env, fr)
        return STR

    def ev_Name(self, e, env, fr):
        k = env.find(e.id)
        if k is not None:
            return k
        g = self.ix.resolve_global(fr.func.module, e.id)
        return self.global_kind(fr.func.module, e.id, g)

    def global_kind(self, module, name, g):
        key = (module.name, name)
        if key in self.anns:
            return self.anns[key]
        self.anns[key] = ANY
        k = ANY
        m, n = g if isinstance(g, tuple) else (module, name)
        for mod in ([m] if hasattr(m, 'tree') else [module]):
            for st in mod.tree.body:
                t = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else \
                    st.target if isinstance(st, ast.AnnAssign) else None
                if isinstance(t, ast.Name) and t.id == n:
                    k = (self.ann(st.annotation) if isinstance(st, ast.AnnAssign) else None) or \
                        (self.ev(st.value, Env(), Frame(_Top(mod), None)) if st.value is not None else ANY)
        self.anns[key] = k.named(None)
        return self.anns[key]

    def ev_Attribute(self, e, env, fr):
        base = unparse(e.value, 200)
        r = self.ev(e.value, env, fr)
        a = {'result': '_result', 'children': '_children'}.get(e.attr, e.attr)
        k = env.find(f'{base}.{a}')
        if k is not None:
            return k if k.vid is not None or a not in ('_result', '_children') else k.named(('attr', f'{base}.{a}'))
        if 'none' in r.a:
            self.emit('attr-of-none', fr, e, r)
        if a in ATTRS and (r.a & {'node', '?'} or a in ('_result', '_children', 'content')):
            return ATTRS[a].named(('attr', f'{base}.{a}'))
        if isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') and fr.func.cls is not None:
            for c in self.ix.mro(fr.func.cls):
                k = self.own_attrs.get(c.name, {}).get(e.attr)
                if k is not None:
                    return k.named(None)
        return self.any_attr.get(e.attr, ANY).named(None)

    def ev_Subscript(self, e, env, fr):
        known = env.find(unparse(e, 200))
        r = self.ev(e.value, env, fr)
        ix = self.ev(e.slice, env, fr)
        if known is not None:
            return known
        sl = isinstance(e.slice, ast.Slice)
        out = None
        for a in r.a:
            if a in ('tuple', 'list', 'seq'):
                if sl:
                    x = K({a}, elem(r))
                elif r.items is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                        -len(r.items) <= e.slice.value < len(r.items):
                    x = r.items[e.slice.value]
                else:
                    x = elem(r)
            elif a == 'str':
                x = STR
            elif a == 'dict':
                x = r.e or ANY
            elif a == 'node':
                x = NODES if sl else NODE
                if not sl and '?' in ix.a:
                    x = NODE
            else:
                x = ANY
            out = join(out, x)
        return out.named(None) if out is not None else ANY

    def ev_Slice(self, e, env, fr):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env, fr)
        return ANY

    def ev_Tuple(self, e, env, fr):
        its, star = [], False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                star = True
                its.append(elem(self.ev(x.value, env, fr)))
            else:
                its.append(self.ev(x, env, fr))
        if star:
            r = None
            for x in its:
                r = join(r, x)
            return K({'tuple'}, r)
        vid = ('tuple',) + tuple(x.vid for x in its) if all(x.vid is not None for x in its) else None
        return K({'tuple'}, None, tuple(its), vid) if its else EMPTY

    def ev_List(self, e, env, fr):
        r = None
        for x in e.elts:
            k = elem(self.ev(x.value, env, fr)) if isinstance(x, ast.Starred) else self.ev(x, env, fr)
            r = join(r, k)
        return K({'list'}, r)

    def ev_Set(self, e, env, fr):
        for x in e.elts:
            self.ev(x.value if isinstance(x, ast.Starred) else x, env, fr)
        return K({'set'})

    def ev_Dict(self, e, env, fr):
        r = None
        for k, x in zip(e.keys, e.values):
            if k is not None:
                self.ev(k, env, fr)
            v = self.ev(x, env, fr)
            r = join(r, v) if k is not None else ANY
        return K({'dict'}, r)

    def comp(self, e, env, fr):
        child = Env({}, env)
        for g in e.generators:
            it = self.ev(g.iter, child, fr)
            self.assign(g.target, elem(it).named(None), child, fr, ast.Pass(), None)
            for c in g.ifs:
                self.ev(c, child, fr)
                n = self.narrow(c, child.copy_(), True, fr)
                child.clear()
                child.update(n)
        if isinstance(e, ast.DictComp):
            self.ev(e.key, child, fr)
            return self.ev(e.value, child, fr)
        return self.ev(e.elt, child, fr)

    def ev_ListComp(self, e, env, fr):
        return K({'list'}, self.comp(e, env, fr).named(None))

    def ev_GeneratorExp(self, e, env, fr):
        return K({'gen'}, self.comp(e, env, fr).named(None))

    def ev_SetComp(self, e, env, fr):
        return K({'set'}, self.comp(e, env, fr).named(None))

    def ev_DictComp(self, e, env, fr):
        return K({'dict'}, self.comp(e, env, fr).named(None))

    def ev_IfExp(self, e, env, fr):
        self.ev(e.test, env, fr)
        if fr.choose is not None and id(e) in fr.choose:
            c = fr.choose[id(e)]
            env.update(self.narrow(e.test, env.copy_(), c, fr))
            return self.ev(e.body if c else e.orelse, env, fr)
        a = self.ev(e.body, self.narrow(e.test, env.copy_(), True, fr), fr)
        b = self.ev(e.orelse, self.narrow(e.test, env.copy_(), False, fr), fr)
        return join(a, b)

    def ev_BoolOp(self, e, env, fr):
        out = None
        cur = env.copy_()
        isor = isinstance(e.op, ast.Or)
        for i, x in enumerate(e.values):
            k = self.ev(x, cur, fr)
            last = i == len(e.values) - 1
            if not last:
                if isor:
                    k = K(k.a - {'none'}, k.e, k.items, k.vid, k.fn) if k.a != {'none'} and not (
                        k.a == {'tuple'} and k.items == ()) else K(())
                else:
                    k = K(k.a - {'node'}, k.e, k.items, None)
                cur = self.narrow(x, cur, not isor, fr)
            if k.a:
                vid = out.vid if out is not None and isor and last and isinstance(x, ast.Constant) else None
                out = join(out, k)
                if vid is not None:
                    out = out.named(('or', vid))
        return out if out is not None else NONE

    def ev_NamedExpr(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        self.assign(e.target, v, env, fr, ast.Pass(), e.value)
        return v

    def ev_Lambda(self, e, env, fr):
        c = Env({}, env)
        for p in e.args.posonlyargs + e.args.args + e.args.kwonlyargs:
            c[p.arg] = ANY
        if e.args.vararg is not None:
            c[e.args.vararg.arg] = ANY
        k = self.ev(e.body, c, fr)
        self.emit('lambda', fr, e, k)
        return K({'obj'}, fn=((e, k),))

    def ev_Starred(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def ev_Await(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def ev_Yield(self, e, env, fr):
        v = self.ev(e.value, env, fr) if e.value is not None else NONE
        fr.yields = join(fr.yields, v)
        return ANY

    def ev_YieldFrom(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        fr.yields = join(fr.yields, elem(v))
        return ANY

    def ev_Compare(self, e, env, fr):
        self.ev(e.left, env, fr)
        for x in e.comparators:
            self.ev(x, env, fr)
        return INT

    def ev_UnaryOp(self, e, env, fr):
        self.ev(e.operand, env, fr)
        return INT

    def ev_BinOp(self, e, env, fr):
        l, r = self.ev(e.left, env, fr), self.ev(e.right, env, fr)
        return self.binop(e.op, l, r, e)

    def binop(self, op, l, r, e):
        if isinstance(op, ast.Add):
            if 'str' in l.a and not l.a & {'tuple', 'list'} or 'str' in r.a and not r.a & {'tuple', 'list'}:
                return STR
            if 'tuple' in l.a and 'tuple' in r.a or 'tuple' in l.a and '?' in r.a or 'tuple' in r.a and '?' in l.a:
                return K({'tuple'} | ({'str'} if 'str' in l.a and 'str' in r.a else set()), join(elem(l), elem(r)))
            if 'tuple' in l.a and 'none' not in l.a and 'list' not in r.a:
                return K({'tuple'}, join(elem(l), elem(r)))
            if 'list' in l.a:
                return K({'list'}, join(elem(l, None), elem(r, None)))
            if l.a == {'int'} and r.a == {'int'}:
                return INT
            return ANY
        if isinstance(op, ast.Mod) and 'str' in l.a:
            return STR
        if isinstance(op, ast.Mult):
            for a, b in ((l, r), (r, l)):
                if b.a <= {'int'} and not a.a <= {'int'}:
                    return a.named(None)
            return INT if l.a == r.a == {'int'} else ANY
        if l.a == {'int'} and r.a == {'int'}:
            return INT
        if l.a & {'set'}:
            return K({'set'}, l.e)
        return ANY

    # -- calls --------------------------------------------------------------------------------------

    def ev_Call(self, e: ast.Call, env, fr) -> K:
        fn = e.func
        d = dotted(fn) or ''
        name = d.split('.')[-1] if d else fn.attr if isinstance(fn, ast.Attribute) else ''
        recv = self.ev(fn.value, env, fr) if isinstance(fn, ast.Attribute) else None
        args = [self.ev(a, env, fr) for a in e.args]
        kw = {k.arg: self.ev(k.value, env, fr) for k in e.keywords}
        self.emit('call', fr, e, name, recv, args, kw, env)
        r = self.call(e, fn, d, name, recv, args, kw, env, fr)
        if isinstance(fn, ast.Attribute) and r is not None:
            # methods that change the node
            base = unparse(fn.value, 200)
            if name in ('_set_result', 'insert', 'remove', 'pop', 'replace_by', 'swallow', 'append', '__setitem__'):
                for x in ('_result', '_children'):
                    env.pop(f'{base}.{x}', None)
            if name == '_set_result' or name == '__init__':
                if name == '__init__':
                    base = 'self'
                env[f'{base}.!set'] = STR
                for x in ('!_result', '!_children', '!leaf'):
                    env.pop(f'{base}.{x}', None)
        return r if r is not None else ANY

    def call(self, e, fn, d, name, recv, args, kw, env, fr):
        a0 = args[0] if args else None
        if isinstance(fn, ast.Name):
            loc = env.find(fn.id)
            if loc is not None:
                if loc.fn:
                    r = None
                    for n, x in loc.fn:
                        r = join(r, x if isinstance(n, ast.Lambda) else self.ret.get(id(n), K(())))
                    return r
                return ANY
            n = fn.id
            if n == 'tuple':
                return K({'tuple'}, elem(a0)) if a0 is not None else EMPTY
            if n in ('list', 'sorted'):
                return K({'list'}, elem(a0) if a0 is not None else None)
            if n in ('reversed', 'iter', 'filter', 'map', 'enumerate', 'zip', 'range'):
                if n in ('reversed', 'iter') and a0 is not None:
                    return K({'gen'}, elem(a0))
                if n == 'filter' and len(args) > 1:
                    return K({'gen'}, elem(args[1]))
                if n == 'map' and args:
                    x = None
                    for f, k in a0.fn:
                        x = join(x, k if isinstance(f, ast.Lambda) else self.ret.get(id(f), ANY))
                    if dotted(e.args[0]) in ('str', 'repr'):
                        x = STR
                    return K({'gen'}, x or ANY)
                if n == 'enumerate' and a0 is not None:
                    return K({'gen'}, K({'tuple'}, None, (INT, elem(a0))))
                if n == 'zip':
                    return K({'gen'}, K({'tuple'}, None, tuple(elem(x) for x in args)))
                return K({'gen'}, INT)
            if n in ('str', 'repr', 'chr', 'ascii', 'format', 'hex', 'oct', 'bin', 'input', 'StringView'):
                return STR
            if n in ('len', 'int', 'sum', 'abs', 'ord', 'id', 'hash', 'bool', 'isinstance', 'any', 'all', 'float', 'round',
                     'issubclass', 'callable', 'hasattr'):
                if n == 'sum' and len(args) > 1 and not args[1].a <= {'int'}:
                    return args[1].named(None)
                return INT
            if n in ('min', 'max'):
                return elem(a0) if len(args) == 1 else ANY if not args else self.joined(args)
            if n == 'next':
                return join(elem(a0), args[1]) if len(args) > 1 else elem(a0) if a0 is not None else ANY
            if n in ('set', 'frozenset'):
                return K({'set'}, elem(a0) if a0 is not None else None)
            if n == 'dict':
                return K({'dict'})
            if n == 'cast' and len(args) == 2:
                k = self.ann(e.args[0])
                return k.named(args[1].vid) if k is not None else args[1]
            if n == 'deepcopy' or n == 'copy':
                return self.copied(e, n, a0, fr) if a0 is not None else ANY
            if n == 'reduce' and len(args) >= 2:
                return join(elem(args[1]), args[2]) if len(args) > 2 else elem(args[1])
        if d in ('copy.deepcopy', 'copy.copy') and a0 is not None:
            return self.copied(e, d.split('.')[1], a0, fr)
        if d in ('functools.reduce',) and len(args) >= 2:
            return join(elem(args[1]), args[2]) if len(args) > 2 else elem(args[1])
        if d in ('re.sub', 're.escape') or name in ('sub',) and recv is not None and not recv.a & {'node'}:
            return STR
        if name in self.node_classes:
            return NODE
        # package functions
        cal = self.callees(e, recv, fr)
        if cal:
            r = None
            for f in cal:
                x = self.ret.get(id(f.node))
                if x is None:
                    x = self.ann(f.node.returns)
                if x is None:
                    x = K(()) if not self.final else ANY
                if f.is_property:
                    x = ANY
                r = join(r, x)
            return r.named(None) if r is not None else ANY
        if recv is not None:
            if name in STRMETH and not recv.a & {'node', 'obj'}:
                if name == 'group':
                    return K({'str', '?'}) if False else STR
                return STR
            if name in INTMETH:
                return INT
            if name in ('split', 'splitlines', 'rsplit', 'partition', 'rpartition'):
                return K({'list' if 'part' not in name else 'tuple'}, STR)
            if name in ('copy', '__copy__'):
                return recv.named(None)
            if name in ('pop', 'popleft') and recv.a & {'list'}:
                return elem(recv)
            if name in ('get', 'pop', 'setdefault') and recv.a & {'dict'}:
                x = recv.e or ANY
                return join(x, args[1]) if len(args) > 1 else join(x, NONE) if name == 'get' else x
            if name in ('values',) and recv.a & {'dict'}:
                return K({'gen'}, recv.e or ANY)
            if name == 'items' and recv.a & {'dict'}:
                return K({'gen'}, K({'tuple'}, None, (ANY, recv.e or ANY)))
            if name in ('append', 'extend', 'insert', 'sort', 'reverse', 'remove', 'clear', 'update', 'add', 'discard') and \
                    not recv.a & {'node', '?'}:
                return NONE
        return ANY

    def copied(self, e, n, a0, fr):
        if n == 'copy' and a0.a <= {'tuple', 'str', 'int', 'none'}:
            return a0
        fr.count += 1
        return a0.named(('copy', a0.vid, unparse(e.args[1]) if len(e.args) > 1 else fr.count))

    def joined(self, ks):
        r = None
        for k in ks:
            r = join(r, k)
        return r

    def callees(self, e, recv, fr) -> List[Func]:
        fn = e.func
        if isinstance(fn, ast.Name):
            f = self.ix.resolve_func(fr.func.module, fn.id)
            return [f] if f is not None else []
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super' and fr.func.cls is not None:
                f = self.ix.lookup_super(fr.func.cls, fr.func.cls, fn.attr)
                return [f] if f is not None else []
            if isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') and fr.func.cls is not None:
                f = self.ix.lookup(fr.func.cls, fn.attr)
                if f is None:
                    ms = self.aliases(fn.attr)
                    if ms:
                        return ms
                if f is not None:
                    return [f] + [c.methods[fn.attr] for c in self.ix.subclasses(fr.func.cls, strict=True)
                                  if fn.attr in c.methods]
            if recv is not None and recv.a == {'node'}:
                res = []
                for n in sorted(self.node_classes):
                    for m in self.ix.modules.values():
                        c = m.classes.get(n)
                        if c is not None and fn.attr in c.methods:
                            res.append(c.methods[fn.attr])
                return res
            if recv is not None and recv.a and recv.a <= {'str', 'list', 'tuple', 'dict', 'set', 'int', 'gen'}:
                return []
            if isinstance(fn.value, ast.Name):
                m = self.ix.modules.get(fn.value.id)
                if m is not None and fn.attr in m.functions:
                    return [m.functions[fn.attr]]
                c = self.ix.find_class(fr.func.module, fn.value.id)
                if c is not None:
                    f = self.ix.lookup(c, fn.attr)
                    return [f] if f is not None else []
            if fn.attr in STRMETH | INTMETH | {'get', 'pop', 'append', 'extend', 'insert', 'remove', 'items', 'values', 'keys',
                                               'update', 'add', 'copy', 'split', 'sub', 'sort', 'reverse', 'index'}:
                return []
            ms = self.ix.methods_named(fn.attr)
            return list(ms) if 0 < len(ms) <= 6 else [] if ms else self.aliases(fn.attr)
        return []

    def aliases(self, attr):
        """methods that are stored in attributes of this name"""
        if self.alias is None:
            self.alias = {}
            for f in self.ix.all_functions():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                for m in self.ix.methods_named(n.value.attr):
                                    l = self.alias.setdefault(t.attr, [])
                                    if m not in l and not m.is_property:
                                        l.append(m)
        ms = self.alias.get(attr, [])
        return ms if len(ms) <= 4 else []


class Frame:
    def __init__(self, func, node):
        self.func, self.node = func, node
        self.ret: Optional[K] = None
        self.yields: Optional[K] = None
        self.loops: List = []
        self.tries: List = []
        self.count = 0
        self.choose = None


class _Top:
    """stands for the module level"""

    def __init__(self, module):
        self.module, self.cls, self.name, self.qual = module, None, '<module>', '<module>'
        self.node = module.tree
