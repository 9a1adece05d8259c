"""C29: options given by the caller are handed on, not overwritten, not mixed up, not ignored."""
from __future__ import annotations
import ast
import os
from typing import Dict, List, Optional, Set, Tuple

from sa.src import Index, Func, FUNC, own_nodes, nested_funcs, dotted, unparse
from sa.callgraph import NOISE

EXPLANATION = (
    'Every function, method and nested function of the package that has options (parameters with a default value) is '
    'examined. Data dependence: for each parameter the set of variables and attributes computed from it. Rules: '
    '(unread) an option is read; (overwritten) it is not replaced by something that does not depend on it before it is '
    'read; (lost) a call of another function, method, inherited method or constructor of the package - also by way of '
    'Thread, Process, submit, run_in_executor - that has an option of the same name as a parameter of the caller '
    'passes a value that depends on that parameter, unless the call stands in a branch that depends on the parameter '
    'or the parameter is used up by another argument; (mixed-up) a parameter is not passed on for another parameter '
    'while the called function has one of its name; (fed) pairs of options with different names that are connected '
    'stay connected (table checks/options.txt); (forgotten) an attribute that keeps an option of the constructor is '
    'read somewhere.')
ASSUMPTIONS = ['parameters of the same name mean the same thing in caller and callee (exceptions are listed)',
               'a value computed from an option is the right one']

HERE = os.path.dirname(os.path.abspath(__file__))

# (caller, callee, option): reason
LEFT_OUT = {
    ('set_preset_value', 'set_config_value', 'allow_new_key'): 'the key has been added to the presets just before',
    ('Node.split_if', 'full_split', 'skip_func'):
        'split_if: where not to look for milestones; full_split: which nodes must not be split',
    ('LocalContentMapping.__init__', 'strlen_of', 'select'): 'the paths have been selected; their whole text counts',
    ('LocalContentMapping.__init__', 'strlen_of', 'ignore'): 'the paths have been selected; their whole text counts',
    ('ContentMapping.insert_node', 'ContentMapping.get_path_index', 'left_biased'):
        'the two ends of the inserted node are looked up with opposite bias',
    ('FrozenNode.__init__', 'Node.__init__', 'leafhint'): 'frozen nodes are always leaves',
    ('get_syncfile_path', 'get_main_pid', 'mp_method'): 'the main pid does not depend on the start method any more',
}
# (function, option): reason
UNREAD = {
    ('get_main_pid', 'mp_method'): 'kept for the interface: does not depend on the start method any more',
    ('_GenericTypedDictMeta.__new__', 'total'): 'replacement for TypedDict without any checking',
    ('FrozenNode.__init__', 'leafhint'): 'frozen nodes are always leaves',
    ('echo_requests', 'log_dir'): 'interface of the log functions',
    ('Server.rpc_identify_server', 'html'): 'every service call gets this argument',
    ('Server.rpc_info', 'service_call'): 'every service call gets this argument',
    ('Server.rpc_serve_page', 'service_call'): 'every service call gets this argument',
    ('Server.rpc_serve_page', 'html'): 'every service call gets this argument',
    ('SingleThreadExecutor.map', 'timeout'): 'interface of concurrent.futures.Executor; nothing runs in parallel',
    ('SingleThreadExecutor.map', 'chunksize'): 'interface of concurrent.futures.Executor; nothing runs in parallel',
    ('SingleThreadExecutor.shutdown', 'wait'): 'interface of concurrent.futures.Executor; nothing runs in parallel',
    ('SingleThreadExecutor.shutdown', 'cancel_futures'):
        'interface of concurrent.futures.Executor; nothing runs in parallel',
}


class Sig:
    """the parameters of a function as the caller sees them"""

    def __init__(self, f: Func, bound: bool):
        a = f.node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        n = len(a.defaults)
        self.dfl = set(self.pos[len(self.pos) - n:]) if n else set()
        self.default = dict(zip(self.pos[len(self.pos) - n:], a.defaults)) if n else {}
        if bound and self.pos:
            self.pos = self.pos[1:]
        self.kw = [x.arg for x in a.kwonlyargs]
        for k, d in zip(self.kw, a.kw_defaults):
            if d is not None:
                self.dfl.add(k)
                self.default[k] = d
        self.all = self.pos + self.kw
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None


def bound_method(f: Func) -> bool:
    return f.cls is not None and f.outer is None and not f.is_static


class Scope:
    """a function with everything nested in it"""

    def __init__(self, ix: Index, top: Func):
        self.ix, self.top = ix, top
        self.funcs = [top] + nested_funcs(top)
        self.parent: Dict[int, ast.AST] = {}
        for n in ast.walk(top.node):
            for c in ast.iter_child_nodes(n):
                self.parent[id(c)] = n
        self.by_node = {id(f.node): f for f in self.funcs}
        self.locals: Dict[int, Set[str]] = {}
        for f in self.funcs:
            names = set(f.all_params())
            free = set()
            for n in own_nodes(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, FUNC + (ast.ClassDef,)):
                    names.add(n.name)
                elif isinstance(n, (ast.Nonlocal, ast.Global)):
                    free.update(n.names)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        names.add((a.asname or a.name).split('.')[0])
            self.locals[id(f.node)] = names - free
        self._deps: Dict[Tuple, Set] = {}
        self.edges = None
        self.tight_edges = None

    # -- names ---------------------------------------------------------------------------------------------------

    def func_of(self, node) -> Func:
        n = node
        while id(n) in self.parent:
            n = self.parent[id(n)]
            if id(n) in self.by_node:
                return self.by_node[id(n)]
        return self.top

    def home(self, name: str, f: Func):
        """the key of the variable that name denotes in f; None: global"""
        while f is not None:
            if name in self.locals.get(id(f.node), ()):
                return (id(f.node), name)
            f = f.outer
        return None

    def lambda_param(self, n: ast.Name) -> Optional[ast.AST]:
        x = n
        while id(x) in self.parent:
            x = self.parent[id(x)]
            if isinstance(x, ast.Lambda):
                a = x.args
                if n.id in [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]:
                    return x
            elif id(x) in self.by_node:
                return None
        return None

    def keys(self, e: ast.AST, f: Func) -> Set:
        """variables and attributes of self that are read in e"""
        res = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and self.lambda_param(n) is None:
                    k = self.home(n.id, f)
                    if k is not None:
                        res.add(k)
            elif isinstance(n, ast.Attribute):
                d = dotted(n)
                if d and d.startswith(('self.', 'cls.')):
                    res.add(('.', d.split('.')[1]))
        return res

    # -- data dependence -----------------------------------------------------------------------------------------

    def targets(self, t, f: Func) -> Set:
        if isinstance(t, ast.Name):
            k = self.home(t.id, f)
            return {k} if k is not None else set()
        if isinstance(t, (ast.Tuple, ast.List)):
            return set().union(*[self.targets(x, f) for x in t.elts]) if t.elts else set()
        if isinstance(t, ast.Starred):
            return self.targets(t.value, f)
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            d = dotted(t) if isinstance(t, ast.Attribute) else None
            if d and d.startswith(('self.', 'cls.')):
                return {('.', d.split('.')[1])}
            return self.targets(t.value, f)
        return set()

    def flow_edges(self):
        """(target key, source keys, control keys)"""
        if self.edges is not None:
            return self.edges
        res = []
        tight = self.tight_edges = []
        for f in self.funcs:
            for n in own_nodes(f.node):
                pairs = []
                if isinstance(n, ast.Assign):
                    pairs = [(t, n.value) for t in n.targets]
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                    pairs = [(n.target, n.value)]
                elif isinstance(n, ast.NamedExpr):
                    pairs = [(n.target, n.value)]
                elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                    pairs = [(n.target, n.iter)]
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    pairs = [(i.optional_vars, i.context_expr) for i in n.items if i.optional_vars is not None]
                elif isinstance(n, FUNC):
                    k = self.home(n.name, f)
                    g = self.by_node.get(id(n))
                    if k is not None and g is not None:
                        src = set()
                        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                            src |= self.keys(d, f)
                        for b in n.body:
                            src |= {x for x in self.keys(b, g) if x[0] != id(n)}
                        res.append((k, src, set()))
                        tight.append((k, src))
                elif isinstance(n, ast.Return) and n.value is not None and f is not self.top:
                    k = self.home(f.name, f.outer)
                    if k is not None:
                        res.append((k, self.keys(n.value, f), set()))
                elif isinstance(n, ast.Call):
                    g = self.local_callee(n, f)
                    if g is not None:
                        for q, a in arguments(n, Sig(g, False))[0].items():
                            res.append(((id(g.node), q), self.keys(a, f), set()))
                    if isinstance(n.func, ast.Attribute):
                        # the receiver of a method takes the arguments up: lst.append(x)
                        src = set()
                        for a in n.args + [k.value for k in n.keywords]:
                            src |= self.keys(a, f)
                        for k in self.targets(n.func.value, f):
                            if src and k[1] not in ('self', 'cls'):
                                res.append((k, src, set()))
                for t, v in pairs:
                    src = self.keys(v, f)
                    ctrl = set()
                    for c in self.guards(n, f):
                        ctrl |= self.keys(c, f)
                    for k in self.targets(t, f):
                        res.append((k, src, ctrl))
                        if isinstance(t, (ast.Name, ast.Tuple)) or isinstance(t, ast.Attribute) \
                                and isinstance(t.value, ast.Name):
                            if k != (id(f.node), 'self'):
                                tight.append((k, src | self.choice(n, f)))
        self.edges = res
        return res

    def local_callee(self, call: ast.Call, f: Func) -> Optional[Func]:
        if isinstance(call.func, ast.Name):
            k = self.home(call.func.id, f)
            if k is not None:
                for g in self.funcs:
                    if g.outer is not None and g.name == k[1] and id(g.outer.node) == k[0]:
                        return g
        return None

    def choice(self, n, f: Func) -> Set:
        """if c: x = a  else: x = b   is the same as   x = a if c else b"""
        p = self.parent.get(id(n))
        if isinstance(n, ast.Assign) and isinstance(p, ast.If) and len(p.body) == len(p.orelse) == 1 \
                and isinstance(p.body[0], ast.Assign) and isinstance(p.orelse[0], ast.Assign) \
                and [ast.dump(t) for t in p.body[0].targets] == [ast.dump(t) for t in p.orelse[0].targets]:
            return self.keys(p.test, f)
        return set()

    def deps(self, key, implicit: bool) -> Set:
        """everything that is computed from key"""
        c = self._deps.get((key, implicit))
        if c is None:
            c = {key}
            edges = self.flow_edges()
            while True:
                n = len(c)
                for t, src, ctrl in edges:
                    if t not in c and (src & c or implicit and ctrl & c):
                        c.add(t)
                if len(c) == n:
                    break
            self._deps[(key, implicit)] = c
        return c

    def near(self, key) -> Set:
        """variables computed from key by plain assignments"""
        c = self._deps.get(key)
        if c is None:
            self.flow_edges()
            c = {key}
            while True:
                n = len(c)
                for t, src in self.tight_edges:
                    if src & c:
                        c.add(t)
                if len(c) == n:
                    break
            self._deps[key] = c
        return c

    # -- control dependence --------------------------------------------------------------------------------------

    def decides(self, test: ast.AST, f: Func, near: Set) -> bool:
        """is the value of an option itself examined by the test?"""
        for n in ast.walk(test):
            if isinstance(n, (ast.Name, ast.Attribute)) and self.keys(n, f) & near:
                x = n
                while x is not test:
                    x = self.parent[id(x)]
                    if isinstance(x, ast.Call) and dotted(x.func) not in ('isinstance', 'len', 'callable', 'bool',
                                                                          'hasattr', 'issubclass', 'type'):
                        break
                else:
                    return True
        return False

    def guards(self, node, f: Func) -> List[ast.AST]:
        """the tests that decide whether node is reached"""
        res = []
        n = node
        while id(n) in self.parent and n is not f.node:
            p = self.parent[id(n)]
            if isinstance(p, (ast.If, ast.While)) and n is not p.test:
                res.append(p.test)
            elif isinstance(p, ast.IfExp) and n is not p.test:
                res.append(p.test)
            elif isinstance(p, ast.BoolOp) and n in p.values:
                res.extend(p.values[:p.values.index(n)])
            elif isinstance(p, ast.comprehension):
                res.extend(p.ifs)
            elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in p.generators:
                    res.extend(g.ifs)
            elif isinstance(p, ast.Match):
                res.append(p.subject)
            for field in ('body', 'orelse', 'finalbody'):
                block = getattr(p, field, None)
                if isinstance(block, list) and n in block:
                    for s in block[:block.index(n)]:
                        for x in ast.walk(s):
                            if isinstance(x, ast.If) and (leaves(x.body) or leaves(x.orelse)):
                                res.append(x.test)
            if isinstance(p, ast.Try) and any(n is h for h in p.handlers):
                pass
            n = p
        return res


def leaves(block) -> bool:
    return bool(block) and any(isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break))
                               for s in block for x in [s])


def arguments(call: ast.Call, sig: Sig, args=None, keywords=None):
    """({parameter: argument}, complete?)"""
    res = {}
    complete = True
    args = call.args if args is None else args
    keywords = call.keywords if keywords is None else keywords
    for i, a in enumerate(args):
        if isinstance(a, ast.Starred):
            complete = False
            break
        if i < len(sig.pos):
            res[sig.pos[i]] = a
    for k in keywords:
        if k.arg is None:
            complete = False
        elif k.arg in sig.all:
            res[k.arg] = k.value
    return res, complete


class Resolver:
    def __init__(self, ix: Index):
        self.ix = ix

    def ctor(self, cls) -> Optional[Func]:
        return self.ix.lookup(cls, '__init__') or self.ix.lookup(cls, '__new__')

    def value(self, e: ast.AST, f: Func, scope: Scope) -> List[Tuple[Func, bool]]:
        """functions an expression denotes, with: is the first parameter bound?"""
        ix = self.ix
        if isinstance(e, ast.Name):
            k = scope.home(e.id, f)
            if k is not None:
                for g in scope.funcs:
                    if g.outer is not None and g.name == e.id and id(g.outer.node) == k[0]:
                        return [(g, False)]
                if k in scope.deps((-1, ''), False):
                    return []
                src = self.imported(e.id, f, scope)
                return src
            g = ix.resolve_func(f.module, e.id)
            if g is not None:
                return [(g, False)]
            c = ix.find_class(f.module, e.id)
            if c is not None:
                g = self.ctor(c)
                return [(g, True)] if g is not None else []
            return []
        if isinstance(e, ast.Attribute):
            v = e.value
            cls = scope.top.cls
            if isinstance(v, ast.Name) and v.id in ('self', 'cls') and cls is not None:
                res = []
                g = ix.lookup(cls, e.attr)
                if g is not None:
                    res.append(g)
                return [(g, bound_method(g)) for g in res]
            if isinstance(v, ast.Call) and dotted(v.func) == 'super' and cls is not None:
                g = ix.lookup_super(cls, cls, e.attr)
                return [(g, bound_method(g))] if g is not None else []
            if isinstance(v, ast.Name) and scope.home(v.id, f) is None:
                c = ix.find_class(f.module, v.id)
                if c is not None:
                    g = ix.lookup(c, e.attr)
                    if g is not None:
                        return [(g, g.is_classmethod)]
                    return []
                imp = f.module.imports.get(v.id)
                if imp is not None:
                    mod = imp[0] + ('.' + imp[1] if imp[1] else '')
                    if not mod.startswith('DHParser'):
                        return []
                    m = ix.modules.get(mod.split('.')[-1])
                    if m is not None:
                        g = ix.resolve_func(m, e.attr)
                        return [(g, False)] if g is not None else []
            if e.attr in NOISE or isinstance(v, ast.Constant):
                return []
            ms = ix.methods_named(e.attr)
            if ms and all(Sig(m, bound_method(m)).all == Sig(ms[0], bound_method(ms[0])).all for m in ms):
                return [(ms[0], bound_method(ms[0]))]
        return []

    @staticmethod
    def expand(args, f: Func, scope: Scope):
        """f(*parameters) with parameters = (a, b, ...)"""
        res = []
        for a in args:
            if isinstance(a, ast.Starred) and isinstance(a.value, ast.Name):
                key = scope.home(a.value.id, f)
                tuples = [n.value for h in scope.funcs for n in own_nodes(h.node) if isinstance(n, ast.Assign)
                          and any(isinstance(t, ast.Name) and scope.home(t.id, h) == key for t in n.targets)] \
                    if key is not None else []
                if len(tuples) == 1 and isinstance(tuples[0], ast.Tuple):
                    res.extend(tuples[0].elts)
                    continue
            res.append(a)
        return res

    def imported(self, name, f, scope):
        for n in ast.walk(scope.top.node):
            if isinstance(n, ast.ImportFrom) and n.module and n.module.startswith('DHParser'):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        m = self.ix.modules.get(n.module.split('.')[-1])
                        if m is not None:
                            g = self.ix.resolve_func(m, a.name)
                            if g is not None:
                                return [(g, False)]
        return []

    def calls(self, call: ast.Call, f: Func, scope: Scope):
        """[(callee, {param: argument}, complete?)]"""
        res = []
        for g, bound in self.value(call.func, f, scope):
            args, complete = arguments(call, Sig(g, bound), self.expand(call.args, f, scope))
            res.append((g, args, complete))
        if res:
            return res
        # a function that is called elsewhere: Thread(target=f, args=(..), kwargs={..}), submit(f, ..)
        kws = {k.arg: k.value for k in call.keywords}
        name = call.func.attr if isinstance(call.func, ast.Attribute) else dotted(call.func)
        if 'target' in kws and ('args' in kws or 'kwargs' in kws):
            a = kws.get('args')
            k = kws.get('kwargs')
            if (a is None or isinstance(a, ast.Tuple)) and (k is None or isinstance(k, ast.Dict) and all(
                    isinstance(x, ast.Constant) for x in k.keys)):
                for g, bound in self.value(kws['target'], f, scope):
                    keywords = [ast.keyword(arg=x.value, value=v) for x, v in zip(k.keys, k.values)] if k else []
                    args, complete = arguments(call, Sig(g, bound), a.elts if a is not None else [], keywords)
                    res.append((g, args, complete))
        elif name in ('submit', 'run_in_executor', 'call_soon', 'call_soon_threadsafe', 'call_later', 'partial'):
            for i, a in enumerate(call.args[:2]):
                fs = self.value(a, f, scope) if isinstance(a, (ast.Name, ast.Attribute)) else []
                if fs:
                    for g, bound in fs:
                        args, complete = arguments(call, Sig(g, bound), self.expand(call.args[i + 1:], f, scope),
                                                   call.keywords)
                        res.append((g, args, complete))
                    break
        return res


def diagnostic(node, scope: Scope, f: Func) -> bool:
    """part of the text of an exception, an assertion or a message that is printed"""
    n = node
    while id(n) in scope.parent and n is not f.node:
        p = scope.parent[id(n)]
        if isinstance(p, ast.Raise) or isinstance(p, ast.Assert) and n is not p.test:
            return True
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == 'print':
            return True
        n = p
    return False


def in_handler(node, scope: Scope) -> bool:
    n = node
    while id(n) in scope.parent:
        n = scope.parent[id(n)]
        if isinstance(n, ast.ExceptHandler):
            return True
    return False


def stub(f: Func) -> bool:
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def table() -> List[Tuple[str, str, str, str]]:
    with open(os.path.join(HERE, 'options.txt'), encoding='utf-8') as fh:
        return [tuple(line.split()) for line in fh if line.strip() and not line.startswith('#')]


def own_params(f: Func) -> List[str]:
    s = Sig(f, bound_method(f))
    return s.all


def analyse(ix: Index):
    """yields (scope, f, call, callee, args, complete) for all calls of functions of the package"""
    r = Resolver(ix)
    for top in ix.all_functions():
        scope = Scope(ix, top)
        for f in scope.funcs:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for g, args, complete in r.calls(n, f, scope):
                        yield scope, f, n, g, args, complete


def visible(scope: Scope, f: Func) -> Dict[str, Tuple]:
    """parameters that can be seen in f: name -> key"""
    res = {}
    g = f
    while g is not None:
        for p in own_params(g):
            if p not in res and scope.home(p, f) == (id(g.node), p):
                res[p] = (id(g.node), p)
        g = g.outer
    return res


def fed(ix: Index) -> Set[Tuple[str, str, str, str]]:
    """pairs of options with different names that are connected by a call"""
    res = set()
    for scope, f, call, g, args, complete in analyse(ix):
        sig = Sig(g, False)
        vis = visible(scope, f)
        for q, a in args.items():
            if q not in sig.dfl or q in vis:
                continue
            ks = scope.keys(a, f)
            for p, key in vis.items():
                if key[1] in Sig(scope.by_node[key[0]], False).dfl and ks & scope.near(key):
                    res.add((f'{f.module.name}.{f.qual}', p, f'{g.module.name}.{g.qual}', q))
    return res


def check(ix: Index, rep, tier):
    scopes: Dict[int, Scope] = {}
    feeds: Dict[Tuple, Tuple[bool, str]] = {}
    wanted = table()
    open_: Dict[Tuple, str] = {}          # entries of the table a call does not comply with
    kept = kept_options(ix)
    direct: Dict[str, Set[str]] = {}
    sigs: Dict[str, Sig] = {}
    passes: Dict[Tuple[str, str], Set[str]] = {}

    def name_of(f):
        return f'{f.module.name}.{f.qual}'

    for scope, f, call, g, args, complete in analyse(ix):
        rep.count('calls_of_functions_of_the_package')
        sig = Sig(g, False)
        vis = visible(scope, f)
        where = f'{f.module.rel}:{call.lineno} {f.qual}'
        me, it = name_of(f), name_of(g)
        direct.setdefault(me, set()).add(it)
        akeys = {q: scope.keys(a, f) for q, a in args.items()}
        given = set().union(*[scope.keys(a, f) for a in list(call.args) + [k.value for k in call.keywords]]) \
            if call.args or call.keywords else set()
        for p, key in list(vis.items()) + [('.' + x, ('.', x)) for k, x in given if k == '.']:
            if given & scope.near(key):
                passes.setdefault((me, p), set()).add(it)
        # -- fed
        for a, p, b, q in wanted:
            if a != me or b != it or q not in sig.all:
                continue
            key = ('.', p[1:]) if p[0] == '.' else vis.get(p)
            if key is None:
                continue
            near = scope.near(key)
            if q in args and akeys[q] & near or not complete and given & near:
                feeds[(a, p, b, q)] = True
            elif complete and not given & near and not in_handler(call, scope) and not any(
                    scope.decides(t, f, near) for t in scope.guards(call, f)):
                open_[(a, p, b, q)] = where
        # -- mixed up
        for q, a in args.items():
            if isinstance(a, ast.Name) and a.id != q and a.id in sig.all and a.id not in ('self', 'cls'):
                rep.count('arguments_named_like_another_parameter')
                key = scope.home(a.id, f)
                if key is None or a.id in args and akeys[a.id] & scope.near(key):
                    continue
                rep.violation('mixed-up', f'{f.qual} -> {g.qual} {a.id}', where,
                              f'"{a.id}" is passed to {g.qual}() as "{q}", although that has a parameter '
                              f'"{a.id}", which does not get it')
        # -- lost
        for q in sorted(sig.dfl):
            if q.startswith('__'):
                continue
            if q not in vis:
                c = scope.top.cls
                attr = kept.get((c.name, q)) if c is not None and scope.top.name != '__init__' else None
                if attr is None or g.name in ('__init__', '__new__'):
                    continue
                rep.count('options_of_the_object')
                if not complete and q not in args or q in args and akeys[q] & scope.deps(('.', attr), True) \
                        or given & scope.near(('.', attr)) or any(
                        scope.decides(t, f, scope.near(('.', attr))) for t in scope.guards(call, f)) \
                        or (f.qual, g.qual, q) in LEFT_OUT or diagnostic(call, scope, f):
                    rep.ok(f'{f.qual} -> {g.qual} {q}')
                else:
                    rep.violation('lost', f'{f.qual} -> {g.qual} {q}', where,
                                  f'{g.qual}() does not get the option "{q}", with which {c.name} has been created '
                                  f'(self.{attr}): {unparse(call, 70)}')
                continue
            if g.node is f.node and q not in own_params(f):
                continue
            rep.count('options_of_the_same_name')
            key = vis[q]
            what = f'{f.qual} -> {g.qual} {q}'
            if q in args:
                if akeys[q] & scope.deps(key, True):
                    rep.ok(what)
                    continue
                how = f'gets "{unparse(args[q], 40)}", which does not depend on'
            elif not complete:
                rep.ok(what)
                continue
            else:
                how = 'does not get'
            if (f.qual, g.qual, q) in LEFT_OUT or diagnostic(call, scope, f):
                rep.ok(what)
                continue
            if q not in Sig(scope.by_node[key[0]], False).dfl and q in args:
                rep.ok(what)         # a required parameter is just a name; an option is a promise
                continue
            if q in args and isinstance(args[q], ast.Name) is False and akeys[q] and not isinstance(
                    args[q], (ast.Constant,)):
                rep.ok(what)         # computed from something else on purpose
                continue
            if given & scope.near(key):
                rep.ok(what)         # used up by another argument
                continue
            if any(scope.decides(t, f, scope.near(key)) for t in scope.guards(call, f)):
                rep.ok(what)         # the call is only made for certain values of the option
                continue
            rep.violation('lost', what, where,
                          f'{g.qual}() {how} the option "{q}" of {f.qual}(): {unparse(call, 70)}')

    # -- fed
    quals = {name_of(f): f for top in ix.all_functions() for f in [top] + nested_funcs(top)}
    for a, p, b, q in wanted:
        if b not in direct.get(a, ()):
            continue
        rep.count('connected_options')
        if (a, p, b, q) in open_:
            rep.violation('fed', f'{a} {p} -> {b} {q}', open_[(a, p, b, q)],
                          f'"{p}" of {a}() does not reach the parameter "{q}" of {b}()')
        elif (a, p, b, q) in feeds or any(c != b and b in direct.get(c, ()) for c in passes.get((a, p), ())):
            rep.ok(f'{a} {p} -> {b} {q}')
        elif p[0] == '.' or a in quals and p in own_params(quals[a]) and b in quals and q in own_params(quals[b]):
            rep.violation('fed', f'{a} {p} -> {b} {q}', quals[a].where if a in quals else a,
                          f'"{p}" of {a}() does not reach the parameter "{q}" of {b}() any more')

    # -- unread, overwritten
    for top in ix.all_functions():
        scope = Scope(ix, top)
        for f in scope.funcs:
            sig = Sig(f, bound_method(f))
            for p in sig.all:
                if p not in sig.dfl or p.startswith('_'):
                    continue
                rep.count('options')
                if (f.qual, p) in UNREAD or stub(f):
                    rep.ok(f'{f.qual} {p}')
                    continue
                uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == p
                        and scope.home(p, scope.func_of(n)) == (id(f.node), p)
                        and scope.lambda_param(n) is None]
                loads = [n for n in uses if isinstance(n.ctx, ast.Load)]
                kwargs = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                             and n.func.id in ('locals', 'vars') for n in own_nodes(f.node))
                if not loads and not kwargs:
                    rep.violation('unread', f'{f.qual} {p}', f.where,
                                  f'the option "{p}" of {f.qual}() is never read')
                    continue
                w = overwritten(scope, f, p, uses)
                if w is not None:
                    rep.violation('overwritten', f'{f.qual} {p}', f'{f.module.rel}:{w.lineno} {f.qual}',
                                  f'the option "{p}" of {f.qual}() is replaced before it has been read: '
                                  f'{unparse(w, 60)}')
                    continue
                rep.ok(f'{f.qual} {p}')
    forgotten(ix, rep)
    rep.floor('options', 500)
    rep.floor('options_of_the_same_name', 200)
    rep.floor('connected_options', 30)


def outer_names(qual: str):
    parts = qual.split('.')
    return ['.'.join(parts[:i]) for i in range(2, len(parts))]


def overwritten(scope: Scope, f: Func, p: str, uses) -> Optional[ast.stmt]:
    """the statement that replaces the option unconditionally before it is read"""
    stores = [n for n in uses if isinstance(n.ctx, ast.Store) and scope.func_of(n) is f]
    loads = [n for n in uses if isinstance(n.ctx, ast.Load)]
    key = (id(f.node), p)
    for s in stores:
        st = s
        while not isinstance(st, ast.stmt):
            st = scope.parent[id(st)]
        if not isinstance(st, (ast.Assign, ast.AnnAssign, ast.For, ast.With)):
            continue
        value = st.value if isinstance(st, (ast.Assign, ast.AnnAssign)) else None
        n = st
        while n is not f.node and not isinstance(n, (ast.If, ast.While, ast.ExceptHandler, ast.Match)):
            q = scope.parent[id(n)]
            if isinstance(q, (ast.For, ast.AsyncFor)) and n is not q.iter or isinstance(q, ast.Try) and n in q.orelse:
                break
            n = q
        if n is not f.node:
            continue                 # only under certain circumstances
        if value is not None and scope.keys(value, f) & scope.deps(key, False):
            continue
        if any((n.lineno, n.col_offset) < (st.lineno, st.col_offset) for n in loads):
            continue
        if any(n for n in loads if any(n is x for t in scope.guards(s, f) for x in ast.walk(t))):
            continue
        return st
    return None


def kept_options(ix: Index) -> Dict[Tuple[str, str], str]:
    """(class, option of its constructor): attribute that keeps it"""
    res: Dict[Tuple[str, str], str] = {}
    for c in ix.all_classes():
        for k in reversed(ix.mro(c)):
            init = k.methods.get('__init__')
            if init is None:
                continue
            sig = Sig(init, True)
            for n in own_nodes(init.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Name) \
                        and n.value.id in sig.dfl:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        d = dotted(t)
                        if d and d.startswith('self.') and d.count('.') == 1:
                            res[(c.name, n.value.id)] = d.split('.')[1]
    return res


def forgotten(ix: Index, rep):
    """attributes that keep an option of the constructor and are never read"""
    reads: Set[str] = set()
    texts: List[str] = []
    for m in ix.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                reads.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                texts.append(n.value)
    alltext = '\n'.join(texts)
    for c in ix.all_classes():
        init = c.methods.get('__init__')
        if init is None:
            continue
        scope = Scope(ix, init)
        sig = Sig(init, True)
        for n in own_nodes(init.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    d = dotted(t)
                    if not d or not d.startswith('self.') or d.count('.') != 1:
                        continue
                    a = d.split('.')[1]
                    for p in sig.all:
                        if isinstance(n.value, ast.Name) and n.value.id == p and p in sig.dfl:
                            rep.count('options_kept_in_attributes')
                            if a in reads or a in alltext or not a.startswith('_'):
                                rep.ok(f'{c.name}.{a}')
                            else:
                                rep.violation('forgotten', f'{c.name} {a}', f'{init.module.rel}:{n.lineno} {init.qual}',
                                              f'the attribute "{a}", which keeps the option "{p}", is never read')
