"""C27: files, connections, worker pools and locks that a function opens are closed however it is left."""
from __future__ import annotations
import ast
import sys

from sa.src import Index, Func, FUNC, dotted, nested_funcs, AnalysisError
from sa.flow import Flow, Client

EXPLANATION = (
    'Path-sensitive typestate analysis of every function that opens a file, connects to a server, creates an event '
    'loop or a pool of workers, or acquires a lock: on every normal and exceptional exit the resource has been closed '
    '(close, shutdown, release, leaving a with-block), or it was handed over to the caller (then the call of the '
    'function counts as opening the resource) or to an object, whose closing routine must release it on every path.')
ASSUMPTIONS = ['closing calls do not raise', 'arguments of foreign functions are borrowed, arguments of constructors '
               'are handed over']

CREATORS = {'open', 'fdopen', 'open_connection', 'start_server', 'new_event_loop', 'ThreadPoolExecutor',
            'ProcessPoolExecutor',
            'InterpreterPoolExecutor', 'PickMultiCoreExecutor', 'Pool', 'ThreadPool', 'socket', 'create_connection',
            'NamedTemporaryFile', 'TemporaryDirectory', 'TemporaryFile', 'SpooledTemporaryFile', 'Manager',
            'SyncManager', 'SharedMemory', 'ZipFile', 'scandir', 'Popen', 'mkstemp'}
CLOSERS = {'close', 'shutdown', 'release', 'terminate', '__exit__', 'cleanup', 'wait', 'communicate', 'unlink',
           'aclose', 'kill'}
# creating calls whose result stays alive on purpose
EXEMPT = {('server', 'detach_server', 'Popen'): 'the purpose is a process that outlives the caller',
          ('testing', 'stdio', 'fdopen'): 'handed over to the write transport of the event loop'}
ORIGINS = {'open': {'', 'io', 'os', 'codecs', 'gzip', 'builtins'}, 'socket': {'socket'}, 'Manager': {'multiprocessing'},
           'Pool': {'multiprocessing', 'pool'}, 'scandir': {'os', ''}}
SAFE = {'len', 'isinstance', 'bool', 'dict', 'list', 'set', 'tuple', 'str', 'int', 'float', 'hasattr', 'repr', 'id',
        'callable', 'enumerate', 'zip', 'range', 'reversed', 'type', 'cast', 'print', 'bytearray', 'never_cancel',
        'super', 'frozenset', 'bytes', 'partial'}
SAFE_METHODS = {'append', 'items', 'keys', 'values', 'get', 'add', 'extend', 'setdefault', 'copy', 'join', 'lower',
                'upper', 'strip', 'startswith', 'endswith', 'clear', 'discard', 'is_set', 'set'}


def last(e):
    d = dotted(e)
    return d.split('.')[-1] if d else (e.attr if isinstance(e, ast.Attribute) else None)


def owner_of(e):
    if isinstance(e, (ast.Name, ast.Attribute)):
        return dotted(e)
    return None


def folded(test):
    """sys.version_info comparisons are decided for the running interpreter"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and dotted(test.left) == 'sys.version_info':
        try:
            v = ast.literal_eval(test.comparators[0])
        except ValueError:
            return None
        cur = sys.version_info[:len(v)]
        op = test.ops[0]
        return {ast.GtE: cur >= v, ast.Gt: sys.version_info > v, ast.Lt: sys.version_info < v,
                ast.LtE: cur <= v}.get(type(op))
    return None


class Client27(Client):
    def __init__(self, ix, rep, made):
        self.ix, self.rep, self.made = ix, rep, made
        self.sites = {}          # id(call) -> (call, func)
        self.escapes = set()     # functions that return an open resource
        self.attr_store = {}     # (class, attr) -> site
        self.lost = {}           # id(call) -> (call, func, why)
        self.helpers = {}
        self.visited = set()

    def catches_silent(self, handler, atom, flow, func):
        if handler.type is None:
            return True
        d = {(dotted(t) or '').split('.')[-1] for t in
             (handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type])}
        return bool(d & {'KeyError', 'IndexError', 'LookupError', 'AttributeError', 'TypeError', 'ValueError',
                         'AssertionError', 'NameError', 'ZeroDivisionError', 'Exception', 'BaseException'})

    # -- creators ------------------------------------------------------------------------

    def creates(self, call, func):
        if not isinstance(call, ast.Call):
            return False
        l = last(call.func)
        if l in CREATORS:
            if isinstance(call.func, ast.Attribute):
                base = (dotted(call.func.value) or '?').split('.')[-1]
                if l in ORIGINS and base not in ORIGINS[l] and not (l == 'open' and 'Path' in base):
                    return False
            elif l == 'open' and self.ix.resolve_func(func.module, 'open') is not None:
                return False
            return True
        g = self.resolve(call, func)
        if g is not None and id(g.node) in self.made:
            return True
        c = self.ix.find_class(func.module, l) if isinstance(call.func, ast.Name) and l else None
        return c is not None and any(k[0] == c.name for k in self.made if isinstance(k, tuple))

    def resolve(self, call, func):
        f = call.func
        if isinstance(f, ast.Name):
            o = func
            while o is not None:
                for g in nested_funcs(o):
                    if g.name == f.id and g.outer is not None and g.outer.node is o.node:
                        return self.helpers.setdefault(id(g.node), g)
                o = o.outer
            return self.ix.resolve_func(func.module, f.id)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and func.cls:
            return self.ix.lookup(func.cls, f.attr)
        return None

    def value_calls(self, e, func):
        """creating calls whose result is the value of the expression (or a part of a tuple, or wrapped)"""
        if isinstance(e, ast.Call):
            if self.creates(e, func):
                return [e]
            l = last(e.func) or ''
            if l == 'cast' and len(e.args) == 2:
                return self.value_calls(e.args[1], func)
            if l[:1].isupper() or l in ('closing', 'aclosing', 'enter_context'):
                return [x for a in e.args + [k.value for k in e.keywords] for x in self.value_calls(a, func)]
            return []
        if isinstance(e, (ast.Await, ast.Starred)):
            return self.value_calls(e.value, func)
        if isinstance(e, ast.NamedExpr):
            return self.value_calls(e.value, func)
        if isinstance(e, ast.IfExp):
            return self.value_calls(e.body, func) + self.value_calls(e.orelse, func)
        if isinstance(e, ast.BoolOp):
            return [x for v in e.values for x in self.value_calls(v, func)]
        if isinstance(e, (ast.Tuple, ast.List)):
            return [x for v in e.elts for x in self.value_calls(v, func)]
        return []

    def value_names(self, e):
        """names of resources that (may) make up the value of the expression"""
        o = owner_of(e)
        if o:
            return {o}
        if isinstance(e, ast.Call):
            l = last(e.func) or ''
            if l[:1].isupper() or l in ('cast', 'closing', 'aclosing'):
                return {n for a in e.args + [k.value for k in e.keywords] for n in self.value_names(a)}
            return set()
        if isinstance(e, (ast.Await, ast.Starred, ast.NamedExpr)):
            return self.value_names(e.value)
        if isinstance(e, ast.IfExp):
            return self.value_names(e.body) | self.value_names(e.orelse)
        if isinstance(e, ast.BoolOp):
            return {n for v in e.values for n in self.value_names(v)}
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return {n for v in e.elts for n in self.value_names(v)}
        if isinstance(e, ast.Dict):
            return {n for v in e.values for n in self.value_names(v)}
        return set()

    # -- atoms: (opens {(site, owner)}, nones {name}) ---------------------------------------

    @staticmethod
    def close(atom, name):
        sites = {s for s, o in atom[0] if o == name}
        return frozenset(x for x in atom[0] if x[0] not in sites), atom[1]

    def event(self, kind, node, atom, flow, func):
        opens, nones = atom
        if kind == 'call':
            self.visited.add(id(node))
            l = last(node.func)
            if isinstance(node.func, ast.Attribute):
                o = owner_of(node.func.value)
                if l in CLOSERS and o:
                    return [self.close(atom, o)]
                if l == 'acquire' and o:
                    self.sites[id(node)] = (node, func)
                    return [(opens | {(id(node), o)}, nones)]
                if l in ('enter_context', 'callback', 'append', 'add', 'push', 'put'):
                    for a in node.args:
                        for n in self.value_names(a):
                            if any(x[1] == n for x in opens):
                                atom = self.close(atom, n)
                    return [atom]
            return [atom]
        if kind == 'enter' and isinstance(node, ast.withitem):
            return [atom]
        if kind == 'exit' and isinstance(node, ast.withitem):
            for n in self.value_names(node.context_expr):
                atom = self.close(atom, n)
            return [atom]
        if kind == 'store':
            stmt = node._stmt
            if isinstance(stmt, (ast.With, ast.AsyncWith)):
                return [self.overwrite(atom, owner_of(node))] if owner_of(node) else [atom]
            v = getattr(stmt, 'value', None)
            if isinstance(stmt, (ast.For, ast.AsyncFor)):
                v = None
            if v is not None and isinstance(v, (ast.Tuple, ast.List)) and isinstance(stmt, ast.Assign) \
                    and isinstance(stmt.targets[0], (ast.Tuple, ast.List)) \
                    and len(v.elts) == len(stmt.targets[0].elts):
                for t, x in zip(stmt.targets[0].elts, v.elts):
                    if t is node:
                        v = x
            o = owner_of(node)
            new = self.value_calls(v, func) if v is not None else []
            src = {s for s, ow in opens if v is not None and ow in self.value_names(v)} if new == [] else set()
            if isinstance(node, ast.Subscript) or o is None:
                for n in (self.value_names(v) if v is not None else ()):
                    if any(x[1] == n for x in opens):
                        atom = self.close(atom, n)
                return [atom]
            atom = self.overwrite(atom, o, keep=src)
            opens, nones = atom
            for c in new:
                self.sites[id(c)] = (c, func)
                opens = opens | {(id(c), o)}
            for s in src:
                opens = opens | {(s, o)}
            if v is not None and isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, bool)):
                nones = nones | {(o, v.value)}
            return [(opens, nones)]
        if kind == 'return':
            v = node.value
            if v is None:
                return [atom]
            if self.value_calls(v, func):
                for c in self.value_calls(v, func):
                    self.sites[id(c)] = (c, func)
                self.escapes.add(id(func.node))
            for n in self.value_names(v):
                if any(x[1] == n for x in atom[0]) and not n.startswith('self.'):
                    self.escapes.add(id(func.node))
                    atom = self.close(atom, n)
            return [atom]
        return [atom]

    def overwrite(self, atom, o, keep=()):
        if o is None:
            return atom
        opens, nones = atom
        res = set()
        for s, ow in opens:
            if ow == o:
                if s not in keep and not any(s == s2 and o2 != o for s2, o2 in opens):
                    res.add((s, ''))
                continue
            res.add((s, ow))
        return frozenset(res), frozenset(n for n in nones if n[0] not in (o, '!' + o))

    def branch(self, test, atom, truth, flow, func):
        v = folded(test)
        if v is not None:
            return [atom] if v == truth else []
        name, positive = None, True
        if owner_of(test):
            name = owner_of(test)
            for n, v in atom[1]:
                if n == name:
                    return [atom] if bool(v) == truth else []
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and owner_of(test.left):
            name = owner_of(test.left)
            positive = isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
        if name:
            want = truth == positive
            if any(o == name for _, o in atom[0]) and not want:
                return []
            if (name, None) in atom[1] and want:
                return []
            if isinstance(test, ast.Compare):
                # want: not None
                if ('!' + name, None) in atom[1] and not want:
                    return []
                if '.' not in name and name in func.params():
                    atom = (atom[0], atom[1] | {(('!' if want else '') + name, None)})
        return [atom]

    def may_raise(self, call, atom, flow, func):
        if isinstance(call, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = getattr(call, 'value', None)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                    v.func.attr in ('wait_closed',) + tuple(CLOSERS):
                return False
            return True
        l = last(call.func)
        if isinstance(call.func, ast.Name):
            return l not in SAFE
        return l not in SAFE_METHODS and l not in CLOSERS and l not in ('wait_closed',)

    def target(self, call, atom, flow, func):
        if not atom[0]:
            return None
        g = self.resolve(call, func)
        if g is None:
            return None
        owned = {o for _, o in atom[0]}
        if any(owner_of(a) in owned for a in list(call.args) + [k.value for k in call.keywords]):
            return g
        if isinstance(call.func, ast.Attribute) and any(o.startswith('self.') for o in owned):
            return g if any(isinstance(n, ast.Attribute) and dotted(n) in owned for n in ast.walk(g.node)) else None
        if g.outer is not None and any(isinstance(n, ast.Name) and n.id in owned for n in ast.walk(g.node)):
            return g
        return None

    def mapping(self, callee, call):
        ps = callee.params()
        if callee.is_method and isinstance(call.func, ast.Attribute):
            ps = ps[1:]
        m = {}
        for p, a in zip(ps, call.args):
            o = owner_of(a)
            if o:
                m[o] = p
        for k in call.keywords:
            o = owner_of(k.value)
            if o and k.arg:
                m[o] = k.arg
        return m

    def bind(self, callee, call, atom, flow, func):
        m = self.mapping(callee, call)
        local = set(callee.params())
        opens = frozenset((s, m.get(o, o if o.startswith('self.') or (callee.outer is not None and o not in local)
                                else '<' + o)) for s, o in atom[0])
        return opens, frozenset((m[n], v) for n, v in atom[1] if n in m)

    def unbind(self, callee, call, atom, before, flow, func):
        back = {}
        for a, p in self.mapping(callee, call).items():
            back.setdefault(p, a)
        opens = set()
        inner = {(s, o) for s, o in atom[0]}
        old = {s for s, _ in before[0]}
        for s, o in inner:
            if s in old:
                continue
            opens.add((s, back.get(o, o)))
        left = {s for s, _ in inner}
        opens |= {(s, o) for s, o in before[0] if s in left}
        return frozenset(opens), before[1]


def parents(node):
    res = {}
    for p in ast.walk(node):
        for c in ast.iter_child_nodes(p):
            res[c] = p
    return res


def check(ix: Index, rep, tier):
    made = {}
    funcs = []
    for f in ix.all_functions():
        funcs.append(f)
        funcs.extend(nested_funcs(f))
    # creating functions and classes: closure
    while True:
        cl0 = Client27(ix, rep, made)
        todo = [f for f in funcs if any(cl0.creates(n, f) or isinstance(n, ast.Call) and last(n.func) == 'acquire'
                                        for n in ast.walk(f.node))]
        results, escapes, stores, sites, visited = [], set(), {}, {}, set()
        for f in todo:
            cl = Client27(ix, rep, made)
            o = Flow(cl).run(f, [(frozenset(), frozenset())])
            results.append((f, o, cl))
            escapes |= cl.escapes
            sites.update(cl.sites)
            visited |= cl.visited
            for a in o.ret | o.exc:
                for s, ow in a[0]:
                    if ow.startswith('self.') and ow.count('.') == 1 and f.cls is not None and s in cl.sites:
                        stores.setdefault((f.cls.name, ow[5:]), (f.cls, cl.sites[s]))
        new = set(escapes) | {k for k in stores}
        if new <= set(made):
            break
        for k in new:
            made[k] = True

    # resources kept in objects: the class has a closing routine that releases them on every path
    closed_by = {}
    for (cname, attr), (c, _) in sorted(stores.items(), key=lambda x: x[0]):
        ok = None
        for m in ('shutdown', 'close', 'cleanup', '__exit__', 'disconnect', 'stop', '__del__'):
            g = ix.lookup(c, m)
            if g is None:
                continue
            cl = Client27(ix, rep, made)
            owner = 'self.' + attr
            o = Flow(cl).run(g, [(frozenset({(1, owner)}), frozenset())])
            if o.ret and not any(s == 1 for a in o.ret | o.exc for s, _ in a[0]):
                ok = m
                break
        closed_by[cname, attr] = ok
        rep.count('object_resources')
        if ok:
            rep.ok(f'{cname}.{attr} is released by {cname}.{ok}()')
    reported = set()
    for f, o, cl in results:
        rep.count('functions_with_resources')
        exits = 0
        for kind, atoms in (('returns', o.ret), ('is left by an exception', o.exc)):
            for a in atoms:
                exits += 1
                for s, ow in a[0]:
                    call, fn = cl.sites.get(s, (None, None))
                    if call is None:
                        continue
                    l = last(call.func)
                    if (fn.module.name, fn.qual, l) in EXEMPT:
                        continue
                    if ow.startswith('self.') and f.cls is not None and closed_by.get((f.cls.name, ow[5:])):
                        continue
                    key = f'{fn.qual} {l}'
                    if key in reported:
                        continue
                    reported.add(key)
                    rep.violation('not-closed', key, f'{fn.module.rel}:{call.lineno} {fn.qual}',
                                  f'when {f.qual} {kind}, the resource opened by {l}() has not been closed'
                                  + (' (the variable was overwritten)' if ow == '' else ''))
        rep.count('exit_states', exits)
    # creating calls whose result is neither kept nor managed
    for f in todo:
        if f.outer is not None:
            continue
        par = parents(f.node)
        inner = {id(g.node): g for g in nested_funcs(f)}

        def scope(n):
            p = par.get(n)
            while p is not None:
                if id(p) in inner:
                    return inner[id(p)]
                p = par.get(p)
            return f
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or not cl0.creates(n, scope(n)):
                continue
            rep.count('opening_calls')
            if id(n) in sites:
                rep.ok(f'{f.qual}: {last(n.func)}() followed to all exits')
                continue
            if id(n) not in visited and not in_lambda(n, par):
                rep.ok(f'{f.qual}: {last(n.func)}() is not reachable with this version of Python')
                continue
            if managed(n, par, scope(n), cl0):
                rep.ok(f'{f.qual}: {last(n.func)}() in a with-statement')
                continue
            if (f.module.name, f.qual, last(n.func)) in EXEMPT:
                rep.ok(f'{f.qual}: {last(n.func)}() exempt')
                continue
            rep.violation('never-closed', f'{f.qual} {last(n.func)}', f'{f.module.rel}:{n.lineno} {f.qual}',
                          f'the result of {last(n.func)}() is used without a name or with-statement; it is not closed')
    rep.floor('opening_calls', 30)
    rep.floor('functions_with_resources', 25)
    rep.floor('object_resources', 2)


def managed(n, par, func, cl):
    p, c = par.get(n), n
    while p is not None:
        if isinstance(p, ast.withitem):
            return p.context_expr is c
        if isinstance(p, ast.Call) and c is not p.func and ((last(p.func) or '')[:1].isupper() or last(p.func) in
                                                            ('closing', 'aclosing', 'enter_context', 'cast',
                                                             'enter_async_context')):
            if last(p.func) in ('enter_context', 'enter_async_context'):
                return True
            p, c = par.get(p), p
            continue
        if isinstance(p, (ast.IfExp, ast.Await, ast.BoolOp, ast.Starred)):
            p, c = par.get(p), p
            continue
        if isinstance(p, ast.Lambda):
            return True        # a factory: judged where it is called
        if isinstance(p, ast.Call) and c is p.func:
            return False
        if isinstance(p, ast.Return):
            return True
        return False
    return False


def in_lambda(n, par):
    while n is not None:
        if isinstance(n, ast.Lambda):
            return True
        n = par.get(n)
    return False
