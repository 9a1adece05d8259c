"""C28: what is shared between threads is only changed under its lock; parsers, compilers and settings are private."""
from __future__ import annotations
import ast
import re

from sa.src import Index, Func, FUNC, dotted, nested_funcs, unparse, AnalysisError
from sa.effects import Effects, MUTATORS
from sa.callgraph import CallGraph
from checks.c08 import ATTR_TYPES, VAR_TYPES

EXPLANATION = (
    'Lock-set and escape analysis: all writes to module- and class-level state (rebinding, class attributes, in-place '
    'changes found by the side-effect summaries of the whole package) must happen under a lock that exists before the '
    'threads do - the same lock for all writes of a variable, the condition re-tested under the lock - or belong to '
    'the audited protocols; factories return objects from the thread-local store or fresh ones; stages are wrapped in '
    'thread-local singleton factories; attributes guarded by a lock of their object are guarded everywhere; no lock '
    'is acquired while it is held already (call graph).')
ASSUMPTIONS = ['single operations on dictionaries and lists are atomic (GIL)', 'callbacks given by the user acquire no '
               'locks of the package']

LOCK_TYPES = {'Lock', 'RLock', 'Condition', 'Semaphore', 'BoundedSemaphore'}
TL = 'configuration.THREAD_LOCALS'

# shared variables that may be changed without a lock, by these functions (or their helpers) only
PROTOCOL = {'access_presets', 'finalize_presets', 'set_preset_value'}
WORKERS = {'submit_wrapper', 'mapped_wrapper'}
AUDITED = {
    'configuration.CONFIG_PRESET': (PROTOCOL | WORKERS, 'presets: to be changed before threads are started; the '
                                    'main pid is set in worker processes'),
    'configuration.ACCESSING_PRESETS': (PROTOCOL, 'flag of the presets protocol'),
    'configuration.PRESETS_CHANGED': (PROTOCOL, 'flag of the presets protocol'),
    'nodetree.chain_id': (None, 'chain-IDs need not be unique across threads'),
    'nodetree.chain_step': (None, 'as above'), 'nodetree.chain_len': (None, 'as above'),
    'nodetree.chain_modulo': (None, 'as above'),
    'toolkit.DEPRECATION_WARNINGS_ISSUED': (None, 'a set that only grows; at worst a warning is issued twice'),
    'Grammar.python_src__': ({'_parser_factory'}, 'string, the same for all threads'),
}
# lazily computed values that may be published without a lock: a complete value, the same from every thread
PUBLISH = {'ebnf.EBNF_Serialization_Table', 'ebnf.PEG_Serialization_Table'}
# functions that hand out stateful objects
FACTORIES = [('ebnf', 'get_ebnf_grammar'), ('ebnf', 'get_ebnf_transformer'), ('ebnf', 'get_ebnf_compiler'),
             ('ebnf', 'EBNFTransform'), ('configuration', '_config_dict'),
             ('toolkit', 'ThreadLocalSingletonFactory.__call__'), ('pipeline', '_parser_factory'),
             ('pipeline', '_make_transformer'), ('pipeline', '_make_evaluation'),
             ('pipeline', '_preprocessor_factory'), ('server', 'gen_task_id')]
# objects that all threads use: not changed after their creation
SHARED_CLASSES = {'ThreadLocalSingletonFactory', 'Junction', 'PseudoJunction'}
SHARED_ATTRS = set()
# functions that open the presets in threads that are running: only under the lock
LOCKED_CALLS = {('configuration', 'get_config_value'): {'access_presets', 'finalize_presets'},
                ('configuration', 'get_config_values'): {'access_presets', 'finalize_presets', 'get_preset_values'}}


def last(e):
    d = dotted(e)
    return d.split('.')[-1] if d else (e.attr if isinstance(e, ast.Attribute) else None)


class Scope:
    """function with its parents map, local names and lock regions"""

    def __init__(self, ch: 'Checker', f: Func):
        self.ch, self.f = ch, f
        self.par = {}
        for p in ast.walk(f.node):
            for c in ast.iter_child_nodes(p):
                self.par[c] = p
        self.inner = {id(g.node): g for g in nested_funcs(f)}
        self.globals = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
        self.locals = {a.arg for n in ast.walk(f.node) if isinstance(n, ast.arguments)
                       for a in n.posonlyargs + n.args + n.kwonlyargs + [x for x in (n.vararg, n.kwarg) if x]}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.globals:
                self.locals.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not f.node:
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.locals.discard(a.asname or a.name)
        self.assigned = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.assigned.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
                self.assigned.setdefault(n.target.id, []).append(n.value)

    def held(self, node) -> frozenset:
        """locks held (lexically) at a node"""
        res = set()
        c, p = node, self.par.get(node)
        while p is not None:
            if isinstance(p, FUNC + (ast.Lambda,)) and p is not self.f.node:
                pass
            if isinstance(p, (ast.With, ast.AsyncWith)) and not isinstance(c, ast.withitem):
                for it in p.items:
                    l = self.ch.lock_id(it.context_expr, self)
                    if l:
                        res.add(l)
            elif isinstance(p, ast.Try) and c in p.body:
                for n in ast.walk(ast.Module(body=p.finalbody, type_ignores=[])):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'release':
                        l = self.ch.lock_id(n.func.value, self)
                        if l and self.acquired_before(p, l):
                            res.add(l)
            c, p = p, self.par.get(p)
        return frozenset(res)

    def acquired_before(self, node, lock):
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'acquire' \
                    and n.lineno <= node.body[0].lineno and self.ch.lock_id(n.func.value, self) == lock:
                return True
        return False


class Checker:
    def __init__(self, ix: Index, rep):
        self.ix, self.rep = ix, rep
        self.locks = {}          # id -> (kind, where)
        self.late = []           # locks created too late
        self.scopes = {}
        for f in ix.all_functions():
            self.scopes[id(f.node)] = Scope(self, f)
        self.find_locks()
        self.eff = Effects(ix, attr_types=ATTR_TYPES, var_types=VAR_TYPES)
        self.entry_locks()

    # -- locks ---------------------------------------------------------------------------

    def lock_kind(self, v):
        return last(v.func) if isinstance(v, ast.Call) and last(v.func) in LOCK_TYPES else None

    def find_locks(self):
        ix = self.ix
        for m in ix.modules.values():
            for st in m.tree.body:
                for n in ([st] if isinstance(st, (ast.Assign, ast.AnnAssign)) else []):
                    k = self.lock_kind(n.value) if n.value is not None else None
                    if k:
                        t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                        self.locks[f'{m.name}.{t.id}'] = (k, f'{m.rel}:{n.lineno}')
        for c in ix.all_classes():
            for n in c.node.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and self.lock_kind(n.value):
                    t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    self.locks[f'{c.name}.{t.id}'] = (self.lock_kind(n.value), f'{c.module.rel}:{n.lineno}')
        for f in ix.all_functions():
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    k = self.lock_kind(n.value)
                    if not k:
                        continue
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        where = f'{f.module.rel}:{n.lineno} {f.qual}'
                        if isinstance(t, ast.Attribute) and dotted(t.value) == 'self' and f.cls is not None:
                            self.locks[f'{f.cls.name}.{t.attr}'] = (k, where)
                            if f.name not in ('__init__', '__new__', '__setstate__', '__post_init__'):
                                self.late.append((f'{f.cls.name}.{t.attr}', f, where))
                        elif isinstance(t, ast.Attribute):
                            self.late.append((unparse(t), f, where))
                        elif isinstance(t, ast.Name) and t.id in self.scopes[id(f.node)].globals:
                            self.late.append((t.id, f, where))

    def lock_id(self, e, sc: Scope, depth=0):
        if depth > 4:
            return None
        ix, f = self.ix, sc.f
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            g = None
            if isinstance(e.func, ast.Name):
                g = ix.resolve_func(f.module, e.func.id)
            elif isinstance(e.func, ast.Attribute) and dotted(e.func.value) in ('self', 'cls') and f.cls is not None:
                g = ix.lookup(f.cls, e.func.attr)
            elif d and d.count('.') == 1:
                m = ix.modules.get(d.split('.')[0])
                g = m.functions.get(d.split('.')[1]) if m else None
            if g is not None:
                gs = self.scopes.get(id(g.node))
                ids = {self.lock_id(n.value, gs, depth + 1) for n in ast.walk(g.node)
                       if isinstance(n, ast.Return) and n.value is not None} if gs else set()
                if len(ids) == 1:
                    return ids.pop()
            return None
        if isinstance(e, ast.Name):
            if e.id in sc.locals:
                vals = sc.assigned.get(e.id, [])
                if len(vals) == 1:
                    return self.lock_id(vals[0], sc, depth + 1)
                return None
            g = ix.resolve_global(f.module, e.id)
            if g is not None:
                k = f'{g[0].name}.{e.id}'
                return k if k in self.locks else None
            return None
        if isinstance(e, ast.Attribute):
            base = e.value
            cname = None
            bd = dotted(base)
            if bd in ('self', 'cls', 'self.__class__') or isinstance(base, ast.Call) and last(base.func) == 'type':
                if f.cls is not None:
                    for c in ix.mro(f.cls):
                        if f'{c.name}.{e.attr}' in self.locks:
                            return f'{c.name}.{e.attr}'
                    for c in ix.subclasses(f.cls, strict=True):
                        if f'{c.name}.{e.attr}' in self.locks:
                            return f'{c.name}.{e.attr}'
                return None
            if bd:
                k = '.'.join(bd.split('.')[-1:] + [e.attr])
                if k in self.locks:
                    return k
                if isinstance(base, ast.Name) and base.id in sc.locals:
                    owners = [x for x in self.locks if x.split('.')[1] == e.attr]
                    if len(owners) == 1:
                        return owners[0]
        return None

    def entry_locks(self):
        """locks every caller in the package holds when a function is called"""
        ix = self.ix
        sites = {}
        for f in ix.all_functions():
            sc = self.scopes[id(f.node)]
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                for g in self.callees(n, f):
                    sites.setdefault(id(g.node), []).append((f, sc.held(n)))
        names_used = {}
        self.sites = sites
        ALL = frozenset(self.locks)
        entry = {}
        for f in ix.all_functions():
            public = f.name in f.module.exported() if f.cls is None else not f.name.startswith('_')
            entry[id(f.node)] = ALL if (sites.get(id(f.node)) and not public and not f.name.startswith('__')) \
                else frozenset()
        changed = True
        while changed:
            changed = False
            for k, lst in sites.items():
                if not entry.get(k):
                    continue
                new = entry[k]
                for caller, held in lst:
                    new &= held | entry.get(id(caller.node), frozenset())
                if new != entry[k]:
                    entry[k] = new
                    changed = True
        self.entry = entry

    def callees(self, call, f):
        ix = self.ix
        fn = call.func
        if isinstance(fn, ast.Name):
            g = ix.resolve_func(f.module, fn.id)
            return [g] if g is not None else []
        if isinstance(fn, ast.Attribute) and dotted(fn.value) in ('self', 'cls', 'self.__class__') and f.cls is not None:
            g = ix.lookup(f.cls, fn.attr)
            return ([g] if g is not None else []) + [c.methods[fn.attr] for c in ix.subclasses(f.cls, strict=True)
                                                     if fn.attr in c.methods]
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            c = ix.find_class(f.module, fn.value.id)
            if c is not None:
                g = ix.lookup(c, fn.attr)
                return [g] if g is not None else []
            m = ix.modules.get(fn.value.id)
            if m is not None and fn.attr in m.functions:
                return [m.functions[fn.attr]]
        return []

    def only_from(self, f: Func, names, seen=()):
        """f is one of the named functions or a helper called by these alone"""
        if f.name in names:
            return True
        if f.name in f.module.exported() or id(f.node) in seen:
            return False
        ss = self.sites.get(id(f.node))
        return bool(ss) and all(self.only_from(c, names, seen + (id(f.node),)) for c, _ in ss)

    # -- writes to shared state ------------------------------------------------------------

    def class_of(self, e, sc: Scope, depth=0):
        """the class an expression denotes (the class object, not an instance)"""
        ix, f = self.ix, sc.f
        if isinstance(e, ast.Name):
            if e.id == 'cls' and f.cls is not None:
                return f.cls.name
            if e.id in sc.locals:
                vals = sc.assigned.get(e.id, [])
                if len(vals) == 1 and depth < 4:
                    return self.class_of(vals[0], sc, depth + 1)
                return None
            c = ix.find_class(f.module, e.id)
            return c.name if c is not None else None
        if isinstance(e, ast.Attribute) and e.attr == '__class__':
            if dotted(e.value) == 'self' and f.cls is not None:
                return f.cls.name
            return self.guess(e.value, sc)
        if isinstance(e, ast.Call) and last(e.func) == 'type' and len(e.args) == 1:
            if dotted(e.args[0]) == 'self' and f.cls is not None:
                return f.cls.name
            return self.guess(e.args[0], sc)
        return None

    def guess(self, e, sc):
        n = last(e) or ''
        return {'grammar': 'Grammar', 'parser': 'Parser', 'compiler': 'Compiler'}.get(n, f'<{n}>')

    def owner(self, cname, attr):
        for c in self.ix.all_classes():
            if c.name == cname:
                for k in self.ix.mro(c):
                    for n in k.node.body:
                        t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) \
                            else None
                        if isinstance(t, ast.Name) and t.id == attr:
                            return k.name
        return cname

    def writes(self):
        """(target, func, node, kind) for all changes of module- or class-level state in functions"""
        ix = self.ix
        direct = set()
        for f in ix.all_functions():
            sc = self.scopes[id(f.node)]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in sc.globals:
                    yield f'{f.module.name}.{n.id}', f, n, 'rebind'
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    c = self.class_of(n.value, sc)
                    if c is not None:
                        yield f'{self.owner(c, n.attr)}.{n.attr}', f, n, 'rebind'
                        continue
                    if isinstance(n.value, ast.Name) and n.value.id not in sc.locals:
                        m = ix.modules.get(n.value.id)
                        if m is not None and n.attr in m.globals:
                            yield f'{m.name}.{n.attr}', f, n, 'rebind'
                        elif ix.resolve_func(f.module, n.value.id) is not None:
                            yield f'{f.module.name}.{n.value.id}.{n.attr}', f, n, 'rebind'
                elif isinstance(n, ast.Call) and dotted(n.func) == 'setattr' and len(n.args) == 3:
                    c = self.class_of(n.args[0], sc)
                    if c is not None:
                        a = n.args[1].value if isinstance(n.args[1], ast.Constant) else '?'
                        yield f'{self.owner(c, a)}.{a}', f, n, 'rebind'
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    b = n.func.value
                    if isinstance(b, ast.Attribute):
                        c = self.class_of(b.value, sc)
                        if c is not None:
                            direct.add(id(n))
                            yield f'{self.owner(c, b.attr)}.{b.attr}', f, n, 'change'
                    elif isinstance(b, ast.Call) and dotted(b.func) == 'globals':
                        yield f'{f.module.name}.globals()', f, n, 'change'
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    if isinstance(b, ast.Attribute) and self.class_of(b.value, sc) is not None:
                        direct.add(id(n))
                        yield f'{self.owner(self.class_of(b.value, sc), b.attr)}.{b.attr}', f, n, 'change'
                    elif isinstance(b, ast.Call) and dotted(b.func) in ('globals', 'vars') and not b.args:
                        yield f'{f.module.name}.globals()', f, n, 'change'
        byplace = {}
        for f in ix.all_functions():
            byplace[f.module.rel, f.qual] = f
        for f in ix.all_functions():
            for e in self.eff.events[id(f.node)]:
                if e.origin[0] != 'g' or id(e.node) in direct:
                    continue
                name = self.gname(e.origin)
                if name is None or not self.mutable_global(name):
                    continue
                if len(e.origin) > 2 and e.via and e.via[-1].endswith(' traverse'):
                    # the cache inside a table: traverse() creates it together with the expanded table, i.e. in the
                    # copy, as long as the table itself never passes through traverse(), which is checked here as well
                    continue
                if e.via:
                    place, _, qual = e.via[0].partition(' ')
                    g = byplace.get((place.rsplit(':', 1)[0], qual))
                    if g is None or any(o[0] == 'g' and self.gname(o) == name for o, _ in self.eff.sum[id(g.node)].mut):
                        continue        # reported where it happens
                yield name, f, e.node, 'change'

    def mutable_global(self, name):
        """the module-level variable holds (or may come to hold) a container or an object with a state of its own"""
        m, _, n = name.partition('.')
        mod = self.ix.modules.get(m)
        if mod is not None and n in mod.globals:
            v = mod.globals[n]
        else:
            v = next((st.value for c in self.ix.all_classes() if c.name == m for st in c.node.body
                      if isinstance(st, (ast.Assign, ast.AnnAssign)) and
                      dotted(st.targets[0] if isinstance(st, ast.Assign) else st.target) == n), None)
        if v is None:
            return True
        if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
        if isinstance(v, ast.Constant):
            return v.value is None
        if isinstance(v, ast.Call):
            l = last(v.func)
            return l in ('dict', 'list', 'set', 'defaultdict', 'deque', 'OrderedDict', 'copy', 'deepcopy',
                         'expand_table', 'bytearray') or (l or '').endswith(('Grammar', 'Compiler', 'Parser'))
        return False

    def gname(self, o):
        """name of a module-level variable, None for classes (constructors), functions and thread-local values"""
        if o[1] == TL:
            return None
        if '.' in o[1]:
            return o[1]
        # a class or function object: attribute of a class
        if len(o) > 2 and o[2] not in ('[]', '?') and not o[2].startswith('('):
            return f'{self.owner(o[1], o[2])}.{o[2]}' if any(c.name == o[1] for c in self.ix.all_classes()) else None
        return None


def check(ix: Index, rep, tier):
    ch = Checker(ix, rep)
    # R0: locks exist before there are threads
    for name, f, where in ch.late:
        rep.violation('late-lock', f'{name} {f.qual}', where,
                      f'the lock {name} is created in {f.qual}: two threads can end up with different locks')
    for k, (kind, where) in ch.locks.items():
        rep.count('locks')
        rep.ok(f'lock {k} ({kind}) at {where}')
    # R1: writes to shared state
    by_target = {}
    for target, f, node, kind in ch.writes():
        held = ch.scopes[id(f.node)].held(node) | ch.entry.get(id(f.node), frozenset())
        by_target.setdefault(target, []).append((f, node, kind, held))
    identity = compared(ix)
    for target, ws in sorted(by_target.items()):
        rep.count('shared_variables')
        if target.startswith('<') and target.endswith('>.python_src__'):
            target = 'Grammar.python_src__'     # of the class of an object of whatever name
        names, reason = AUDITED.get(target, (None, None))
        unlocked = []
        locks = None
        for f, node, kind, held in ws:
            rep.count('shared_writes')
            where = f'{f.module.rel}:{node.lineno} {f.qual}'
            if target in AUDITED:
                if names is None or ch.only_from(f, names):
                    rep.ok(f'{target} in {f.qual}: {reason}')
                    continue
                rep.violation('shared-write', f'{target} {f.qual}', where,
                              f'{f.qual} changes {target}, which all threads share')
                continue
            if target in PUBLISH and kind == 'rebind' and published_complete(f, node, target):
                rep.ok(f'{target} in {f.qual}: complete value published')
                continue
            if not held:
                unlocked.append((f, where))
                continue
            locks = held if locks is None else locks & held
            rep.ok(f'{target} in {f.qual}: under {", ".join(sorted(held))}')
        for f, where in unlocked:
            rep.violation('shared-write', f'{target} {f.qual}', where,
                          f'{f.qual} changes {target}, which all threads share, without holding a lock')
        if locks is not None and not locks:
            f, node = ws[0][:2]
            rep.violation('different-locks', target, f'{f.module.rel}:{node.lineno} {f.qual}',
                          f'{target} is changed under different locks')
    for t in PUBLISH:
        if t in identity:
            f, n = identity[t]
            rep.violation('identity-published', t, f'{f.module.rel}:{n.lineno} {f.qual}',
                          f'{t} is compared by identity but may be created twice')
    # calls that must be made under the lock
    for (m, q), names in LOCKED_CALLS.items():
        f = ix.func(m, q)
        for g in helpers(ch, f):
            sc = ch.scopes[id(g.node)]
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and last(n.func) in names:
                    rep.count('locked_calls')
                    if sc.held(n) or ch.entry.get(id(g.node)):
                        rep.ok(f'{g.qual}: {last(n.func)}() under the lock')
                    else:
                        rep.violation('presets-unlocked', f'{g.qual} {last(n.func)}', f'{g.module.rel}:{n.lineno} {g.qual}',
                                      f'{last(n.func)}() is called without the lock; two threads can interfere')
    guarded_attributes(ch)
    double_checks(ch)
    deadlocks(ch)
    factories(ch)
    stages(ch)
    shared_classes(ch)
    cached_results(ch)
    rep.floor('locks', 4)
    rep.floor('shared_variables', 10)
    rep.floor('shared_writes', 15)
    rep.floor('factories', 10)
    rep.floor('stages', 5)
    rep.floor('guarded_attributes', 4)


def helpers(ch, f):
    res, work = [], [f]
    while work:
        g = work.pop()
        if any(g is x for x in res):
            continue
        res.append(g)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                for h in ch.callees(n, g):
                    if h.module is f.module and h.name.startswith('_') and h.name not in PROTOCOL:
                        work.append(h)
    return res


def compared(ix):
    """globals that are compared by identity with something else than a constant"""
    res = {}
    for f in ix.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                if isinstance(n.comparators[0], ast.Constant):
                    continue
                for x in (n.left, n.comparators[0]):
                    if isinstance(x, ast.Name):
                        g = ix.resolve_global(f.module, x.id)
                        if g is not None:
                            res.setdefault(f'{g[0].name}.{x.id}', (f, n))
    return res


def published_complete(f, node, target):
    """the variable is not worked on after it has been published"""
    name = target.split('.')[-1]
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                and isinstance(n.value, ast.Name) and n.value.id == name:
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            return False
    return True


def attr_writes(f, attr):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == attr and dotted(n.value) == 'self' \
                and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and dotted(n.value) == 'self.' + attr:
            yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                and dotted(n.func.value) == 'self.' + attr:
            yield n


INIT = ('__init__', '__new__', '__setstate__', '__del__', '__post_init__')
# methods that run when no other thread uses the object any more
CLOSING = {('ExecutionEnvironment', 'shutdown')}
# attributes of objects with a lock that the lock is not meant for
UNGUARDED = {'ExecutionEnvironment': {'loop': 'set once', 'log_file': 'set once by the server', '_closed': 'flag'}}
# attributes that must be guarded by the lock of their object
MUST_GUARD = {'ExecutionEnvironment': {'_process_executor', '_thread_executor', '_submit_pool'},
              'MockStream': {'data', '_closed'}}
# audited: the attribute is only touched in the coroutine that runs in the event loop's thread
LOOP_ONLY = {('ExecutionEnvironment', 'execute'), ('ExecutionEnvironment', 'submit_as_process')}


def guarded_attributes(ch):
    ix, rep = ch.ix, ch.rep
    for c in ix.all_classes():
        own = {k for k in ch.locks if k.split('.')[0] == c.name and not any(
            isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(
                (n.targets[0] if isinstance(n, ast.Assign) else n.target), ast.Name) and
            (n.targets[0] if isinstance(n, ast.Assign) else n.target).id == k.split('.')[1] for n in c.node.body)}
        if not own and c.name not in MUST_GUARD:
            continue
        methods = [f for f in list(c.methods.values()) + list(c.setters.values())]
        written = {}
        for f in methods:
            if f.name in INIT:
                continue
            sc = ch.scopes.get(id(f.node)) or Scope(ch, f)
            attrs = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and dotted(n.value) == 'self'}
            for a in attrs:
                for n in attr_writes(f, a):
                    held = sc.held(n) | ch.entry.get(id(f.node), frozenset())
                    written.setdefault(a, []).append((f, n, held & own))
        for a, ws in sorted(written.items()):
            must = a in MUST_GUARD.get(c.name, ()) or any(h for _, _, h in ws)
            if not must:
                continue
            rep.count('guarded_attributes')
            for f, n, h in ws:
                where = f'{f.module.rel}:{n.lineno} {f.qual}'
                if h:
                    rep.ok(f'{c.name}.{a} in {f.qual} under {sorted(h)[0]}')
                elif (c.name, f.name) in CLOSING or (c.name, f.name) in LOOP_ONLY or \
                        ch.only_from(f, {m for k, m in CLOSING | LOOP_ONLY if k == c.name}):
                    rep.ok(f'{c.name}.{a} in {f.qual}: no concurrent use')
                else:
                    rep.violation('unguarded', f'{c.name}.{a} {f.qual}', where,
                                  f'{f.qual} changes {a} without the lock that guards it elsewhere')
        # in methods that change a guarded attribute, it is read under the lock as well
        for f in methods:
            if f.name in INIT or (c.name, f.name) in CLOSING | LOOP_ONLY:
                continue
            sc = ch.scopes.get(id(f.node)) or Scope(ch, f)
            for a, ws in written.items():
                if not any(h for _, _, h in ws) or not any(g is f and h for g, _, h in ws):
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == a and dotted(n.value) == 'self' \
                            and isinstance(n.ctx, ast.Load) and not sc.held(n) & own \
                            and not ch.entry.get(id(f.node)):
                        if only_tested(n, sc) or returned(n, sc):
                            continue
                        rep.violation('unguarded-read', f'{c.name}.{a} {f.qual}', f'{f.module.rel}:{n.lineno} {f.qual}',
                                      f'{f.qual} reads {a} before it acquires the lock under which it changes it')


def only_tested(n, sc):
    c, p = n, sc.par.get(n)
    while p is not None and not isinstance(p, ast.stmt):
        c, p = p, sc.par.get(p)
    return isinstance(p, (ast.If, ast.While)) and c is p.test


def returned(n, sc):
    p = sc.par.get(n)
    return isinstance(p, ast.Return)


def names_in(e):
    return {dotted(x) for x in ast.walk(e) if isinstance(x, (ast.Name, ast.Attribute)) and dotted(x)}


def double_checks(ch):
    """what is created under a lock because it was found missing is looked up again under the lock"""
    rep = ch.rep
    for f in ch.ix.all_functions():
        sc = ch.scopes[id(f.node)]
        for w in ast.walk(f.node):
            if not isinstance(w, (ast.With, ast.AsyncWith)) or not any(ch.lock_id(i.context_expr, sc) for i in w.items):
                continue
            targets = {}
            for n in ast.walk(w):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        d = dotted(t)
                        if d and (d in sc.globals or d.startswith(('self.', 'cls.'))):
                            targets.setdefault(d, []).append(n)
            for d in targets:
                outer = [p for p in ancestors(w, sc) if isinstance(p, ast.If) and d in names_in(p.test)]
                if not outer and not early_exit(f, w, d, sc):
                    continue
                rep.count('double_checks')
                if any(isinstance(n, (ast.If, ast.IfExp, ast.While)) and d in names_in(n.test) for n in ast.walk(w)):
                    rep.ok(f'{f.qual}: {d} is tested again under the lock')
                else:
                    rep.violation('no-retest', f'{f.qual} {d}', f'{f.module.rel}:{w.lineno} {f.qual}',
                                  f'{d} is created under the lock without testing again: a second thread replaces it')
                # threads that see the variable set go ahead without the lock: it must be set last
                late = [x for st in targets[d] for x in after(st, w, sc) if not isinstance(x, ast.Attribute) or
                        dotted(x) != d]
                if late:
                    rep.violation('published-early', f'{f.qual} {d}', f'{f.module.rel}:{late[0].lineno} {f.qual}',
                                  f'{d} tells other threads that the work is done, but it is set before '
                                  f'"{unparse(late[0])[:50]}" is done')
                else:
                    rep.ok(f'{f.qual}: {d} is set last')


def after(st, w, sc):
    """calls and writes to objects that follow a statement inside the region of the lock"""
    c, p = st, sc.par.get(st)
    while c is not w:
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(p, field, None)
            if isinstance(block, list) and c in block:
                for s in block[block.index(c) + 1:]:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Call) and last(x.func) not in ('isinstance', 'len', 'release') or \
                                isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            yield x
        c, p = p, sc.par.get(p)


def ancestors(n, sc):
    p = sc.par.get(n)
    while p is not None:
        yield p
        p = sc.par.get(p)


def early_exit(f, w, d, sc):
    return any(isinstance(n, ast.If) and n.lineno < w.lineno and d in names_in(n.test) and
               any(isinstance(s, ast.Return) for s in n.body) for n in ast.walk(f.node))


def deadlocks(ch):
    """no lock (other than an RLock) is acquired in a call made while it is held"""
    ix, rep = ch.ix, ch.rep
    cg = CallGraph(ix)
    acquires = {}
    for f in ix.all_functions():
        sc = ch.scopes[id(f.node)]
        s = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.withitem):
                l = ch.lock_id(n.context_expr, sc)
                if l:
                    s.add(l)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'acquire':
                l = ch.lock_id(n.func.value, sc)
                if l:
                    s.add(l)
        acquires[id(f.node)] = s
    memo = {}

    def callees(n, f):
        if isinstance(n, ast.Call):
            return ch.callees(n, f)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and dotted(n.value) == 'self' and f.cls is not None:
            g = ix.lookup(f.cls, n.attr)
            return [g] if g is not None and g.is_property else []
        return []

    def trans(f):
        """locks acquired by f or what it calls, with the path"""
        seen = {}
        work = [(f, (f.qual,))]
        res = {}
        while work:
            g, path = work.pop()
            if id(g.node) in seen:
                continue
            seen[id(g.node)] = True
            for l in acquires.get(id(g.node), ()):
                res.setdefault(l, path)
            for n in ast.walk(g.node):
                for h in callees(n, g):
                    work.append((h, path + (h.qual,)))
        return res
    for f in ix.all_functions():
        sc = ch.scopes[id(f.node)]
        if not acquires[id(f.node)]:
            continue
        for n in ast.walk(f.node):
            held = None
            if isinstance(n, ast.withitem):
                l = ch.lock_id(n.context_expr, sc)
                w = sc.par[n]
                if l and l in sc.held(w) and ch.locks[l][0] != 'RLock':
                    rep.violation('self-deadlock', f'{f.qual} {l}', f'{f.module.rel}:{w.lineno} {f.qual}',
                                  f'{l} is acquired while it is held')
                continue
            for h in callees(n, f):
                held = sc.held(n) if held is None else held
                if not held:
                    continue
                rep.count('calls_under_lock')
                t = trans(h)
                bad = {l for l in held & set(t) if ch.locks[l][0] != 'RLock'}
                for l in bad:
                    rep.violation('self-deadlock', f'{f.qual} {h.qual} {l}', f'{f.module.rel}:{n.lineno} {f.qual}',
                                  f'{f.qual} holds {l} and calls {" -> ".join(t[l])}, which waits for it')
                if not bad:
                    rep.ok(f'{f.qual} -> {h.qual} under {", ".join(sorted(held))}')


# -- privacy ------------------------------------------------------------------------------


def factories(ch):
    ix, rep, eff = ch.ix, ch.rep, ch.eff
    for m, q in FACTORIES:
        f = ix.func(m, q)
        rep.count('factories')
        s = eff.sum[id(f.node)]
        bad = sorted({o for o in flat(s.ret) if o[0] == 'g' and o[1] != TL and stateful(ix, o)})
        if bad:
            rep.violation('shared-object', f'{q} {bad[0][1]}', f.where() if callable(f.where) else f.where,
                          f'{q} hands out {".".join(map(str, bad[0][1:]))}, which all threads share')
        elif not (TL in {o[1] for o in flat(s.ret) if o[0] == 'g'} or fresh(s.ret)):
            rep.ok(f'{q}: no shared object')
        else:
            rep.ok(f'{q}: thread-local or fresh')
    # setters of settings work on the thread's dictionary only
    for q in ('set_config_value', 'add_config_values', 'reset_config_dict', 'get_config_value', 'get_config_values'):
        f = ix.func('configuration', q)
        muts = {o[1] for (o, a) in eff.sum[id(f.node)].mut if o[0] == 'g'}
        rep.count('factories')
        if TL not in muts and q != 'get_config_values':
            rep.violation('setting-not-private', q, f'{f.module.rel}:{f.node.lineno} {q}',
                          f'{q} does not work on the thread-local dictionary of settings')
        else:
            rep.ok(f'{q} works on the thread-local dictionary')
    # what is stored in the thread-local store is made there and then
    for f in ix.all_functions():
        sc = ch.scopes[id(f.node)]
        for n in ast.walk(f.node):
            v = None
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and is_tl(t.value, sc) for t in n.targets):
                v = n.value
            elif isinstance(n, ast.Call) and dotted(n.func) == 'setattr' and len(n.args) == 3 and is_tl(n.args[0], sc):
                v = n.args[2]
            if v is None:
                continue
            rep.count('thread_local_stores')
            src = origin(v, sc) or of_self(v, sc)
            if src:
                rep.violation('shared-in-thread-store', f'{f.qual} {src}', f'{f.module.rel}:{n.lineno} {f.qual}',
                              f'{src} is put into the thread-local store, but it is shared by all threads')
            else:
                rep.ok(f'{f.qual}: stores a fresh value for the thread')
    # a factory serves all threads: its own attributes are set when it is created only
    for c in ix.all_classes():
        if c.name not in SHARED_CLASSES:
            continue
        for name, f in c.methods.items():
            if name in ('__init__', '__new__') or id(f.node) not in eff.sum:
                continue
            rep.count('methods_of_shared_objects')
            slf = (f.params() or [''])[0]
            bad = sorted({a if len(o) == 2 else o[2] for (o, a) in eff.sum[id(f.node)].mut
                          if o[0] == 'p' and o[1] in (slf, 0) and len(o) <= 3})
            bad = [a for a in bad if (c.name, a) not in SHARED_ATTRS]
            if bad:
                rep.violation('shared-object-changed', f'{f.qual} {bad[0]}', f'{f.module.rel}:{f.node.lineno} {f.qual}',
                              f'{f.qual} changes {bad[0]} of an object that all threads use')
            else:
                rep.ok(f'{f.qual} leaves the object unchanged')
    # objects bound by partial() to a function that changes them
    for f in ix.all_functions():
        sc = ch.scopes[id(f.node)]
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and last(n.func) == 'partial' and n.args):
                continue
            g = ix.resolve_func(f.module, n.args[0].id) if isinstance(n.args[0], ast.Name) else None
            if g is None or id(g.node) not in eff.sum:
                continue
            mutated = {o[1] for (o, a) in eff.sum[id(g.node)].mut if o[0] == 'p' and len(o) == 2 and a == '[]'}
            ps = g.params()
            bound = list(zip(ps, n.args[1:])) + [(k.arg, k.value) for k in n.keywords if k.arg]
            for p, v in bound:
                if p in mutated or (p in ps and ps.index(p) in mutated):
                    rep.count('bound_tables')
                    src = origin(v, sc) or (dotted(v) if isinstance(v, ast.Name) and v.id in sc.f.all_params() else None)
                    if src:
                        rep.violation('shared-table', f'{f.qual} {p}', f'{f.module.rel}:{n.lineno} {f.qual}',
                                      f'{g.qual} changes its argument {p}; here it is bound to {src}, which other '
                                      f'threads use as well')
                    else:
                        rep.ok(f'{f.qual}: {p} of {g.qual} is a copy')


def is_tl(e, sc):
    if isinstance(e, ast.Call):
        return last(e.func) == 'access_thread_locals'
    if isinstance(e, ast.Name):
        if e.id == 'THREAD_LOCALS' and e.id not in sc.assigned:
            return True
        return any(is_tl(v, sc) for v in sc.assigned.get(e.id, []))
    return False


def origin(v, sc, depth=0):
    """name of the module-level variable (no class, function, constant) a value is taken from"""
    ix = sc.ch.ix
    if depth > 5:
        return None
    if isinstance(v, ast.Name):
        if v.id in sc.locals:
            for x in sc.assigned.get(v.id, []):
                s = origin(x, sc, depth + 1)
                if s:
                    return s
            return None
        if ix.resolve_func(sc.f.module, v.id) is not None or ix.find_class(sc.f.module, v.id) is not None:
            return None
        g = ix.resolve_global(sc.f.module, v.id)
        if g is None:
            return None
        return None if isinstance(g[1], ast.Constant) and g[1].value is not None else f'{g[0].name}.{v.id}'
    if isinstance(v, (ast.Attribute, ast.Subscript)):
        if sc.ch.class_of(v.value, sc) and isinstance(v, ast.Attribute):
            return unparse(v)
        return origin(v.value, sc, depth + 1)
    if isinstance(v, ast.IfExp):
        return origin(v.body, sc, depth + 1) or origin(v.orelse, sc, depth + 1)
    if isinstance(v, ast.BoolOp):
        for x in v.values:
            s = origin(x, sc, depth + 1)
            if s:
                return s
    return None


def of_self(v, sc, depth=0):
    """attribute of self a value is taken from (not: the result of calling it)"""
    if depth > 5:
        return None
    if isinstance(v, ast.Attribute) and dotted(v.value) == 'self':
        return unparse(v)
    if isinstance(v, ast.Name):
        for x in sc.assigned.get(v.id, []):
            s = of_self(x, sc, depth + 1)
            if s:
                return s
    if isinstance(v, (ast.IfExp, ast.BoolOp)):
        for x in ([v.body, v.orelse] if isinstance(v, ast.IfExp) else v.values):
            s = of_self(x, sc, depth + 1)
            if s:
                return s
    return None


def flat(vals):
    for o in vals:
        if o[0] == 'copy':
            yield from flat([o[1]])
        elif o[0] == 'box':
            yield from flat(o[1])
        elif o[0] in ('p', 'g', 'x'):
            yield o


def stateful(ix, o):
    if '.' not in o[1]:
        return len(o) > 2            # attribute of a class
    m, n = o[1].split('.', 1)
    mod = ix.modules.get(m)
    v = mod.globals.get(n) if mod else None
    return not (isinstance(v, ast.Constant) and v.value is not None)


def fresh(vals):
    return not vals or any(o[0] == 'box' for o in vals)


def wrapped(v, sc, depth=0):
    """does the factory expression go through a ThreadLocalSingletonFactory?"""
    if depth > 5:
        return False
    if isinstance(v, ast.Call):
        l = last(v.func)
        if l == 'ThreadLocalSingletonFactory':
            return True
        if l == 'partial':
            return any(wrapped(a, sc, depth + 1) for a in list(v.args[1:]) + [k.value for k in v.keywords])
        g = sc.ch.callees(v, sc.f) if sc is not None else []
        for h in g:
            hs = sc.ch.scopes[id(h.node)]
            rets = [n.value for n in ast.walk(h.node) if isinstance(n, ast.Return) and n.value is not None]
            if rets and all(wrapped(r, hs, depth + 1) for r in rets):
                return True
        return False
    if isinstance(v, ast.Name) and sc is not None:
        vals = sc.assigned.get(v.id, [])
        return bool(vals) and all(wrapped(x, sc, depth + 1) for x in vals)
    if isinstance(v, ast.Lambda):
        return any(wrapped(x, sc, depth + 1) for x in ast.walk(v.body) if isinstance(x, ast.Call))
    return False


def stages(ch):
    ix, rep = ch.ix, ch.rep
    known = {q for _, q in FACTORIES}
    for f in ix.all_functions():
        if f.module.name not in ('pipeline', 'dsl', 'compile'):
            continue
        sc = ch.scopes[id(f.node)]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('Junction', 'PseudoJunction'):
                args = list(n.args)
                if any(isinstance(a, ast.Starred) for a in args):
                    continue
                kw = {k.arg: k.value for k in n.keywords}
                v = kw.get('factory') or (args[1] if n.func.id == 'Junction' and len(args) > 1 else
                                          args[0] if n.func.id == 'PseudoJunction' and args else None)
                if v is None or isinstance(v, (ast.Subscript, ast.Constant)) or isinstance(v, ast.Attribute):
                    continue            # taken over from an existing junction
                rep.count('stages')
                if wrapped(v, sc):
                    rep.ok(f'{f.qual}: the stage\'s object is private to the thread')
                else:
                    rep.violation('stage-shared', f'{f.qual}', f'{f.module.rel}:{n.lineno} {f.qual}',
                                  f'{f.qual} makes a stage whose factory is not a thread-local singleton factory')
    # module-level stages
    for m in ix.modules.values():
        for st in m.tree.body:
            v = getattr(st, 'value', None)
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and isinstance(v, ast.Call) and \
                    dotted(v.func) in ('Junction', 'PseudoJunction'):
                rep.count('stages')
                a = v.args[1] if dotted(v.func) == 'Junction' else v.args[0]
                ok = isinstance(a, ast.Name) and (a.id in known or ix.resolve_func(m, a.id) is not None and
                                                  a.id in known) or wrapped(a, None)
                name = dotted(st.targets[0] if isinstance(st, ast.Assign) else st.target)
                if ok:
                    rep.ok(f'{m.name}.{name}: thread-local factory')
                else:
                    rep.violation('stage-shared', f'{m.name}.{name}', f'{m.rel}:{st.lineno}',
                                  f'the factory of {name} is not private to the threads')
    # code templates for generated parsers
    for m in ix.modules.values():
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Constant) and isinstance(n.value, str) and 'Junction = ' in n.value):
                continue
            src = re.sub(r'(?<!\{)\{(\w+)\}(?!\})', r'X\1', n.value).replace('{{', '{').replace('}}', '}')
            try:
                tree = ast.parse(src)
            except SyntaxError:
                continue
            for c in ast.walk(tree):
                if isinstance(c, ast.Call) and dotted(c.func) in ('Junction', 'PseudoJunction') and len(c.args):
                    rep.count('template_stages')
                    a = c.args[1] if dotted(c.func) == 'Junction' and len(c.args) > 1 else c.args[0]
                    if isinstance(a, ast.Call) and last(a.func) == 'ThreadLocalSingletonFactory':
                        rep.ok('template: thread-local factory')
                    else:
                        rep.violation('stage-shared', f'template {unparse(c)[:40]}', f'{m.rel}:{n.lineno}',
                                      'the code template for generated parsers makes a stage that is not private')
                elif isinstance(c, ast.keyword) and c.arg == 'transformation_table':
                    rep.count('template_stages')
                    if isinstance(c.value, ast.Name):
                        rep.violation('shared-table', 'template transformation_table', f'{m.rel}:{n.lineno}',
                                      'the code template binds the transformation table itself, not a copy')
                    else:
                        rep.ok('template: table copied')


def shared_classes(ch):
    """containers at class level are not changed through instances that did not replace them"""
    ix, rep, eff = ch.ix, ch.rep, ch.eff
    for c in ix.all_classes():
        level = {}
        for k in ix.mro(c):
            for n in k.node.body:
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
                v = getattr(n, 'value', None)
                if isinstance(t, ast.Name) and (isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp))
                                                or isinstance(v, ast.Call) and dotted(v.func) in
                                                ('list', 'dict', 'set', 'deque', 'defaultdict', 'OrderedDict',
                                                 'collections.deque', 'collections.defaultdict')):
                    level.setdefault(t.id, k)
        level = {a: k for a, k in level.items() if a != '__slots__'}
        if not level:
            continue
        rep.count('class_level_containers', len(level) if any(k is c for k in level.values()) else 0)
        replaced = set()
        for k in ix.mro(c):
            for name in ('__init__', '__new__'):
                g = k.methods.get(name)
                if g is None:
                    continue
                for h in [g] + [x for n in ast.walk(g.node) if isinstance(n, ast.Call) for x in ch.callees(n, g)]:
                    for n in ast.walk(h.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and dotted(n.value) == 'self':
                            replaced.add(n.attr)
        for f in c.methods.values():
            for (o, a), via in eff.sum[id(f.node)].mut.items() if id(f.node) in eff.sum else ():
                if o[0] == 'p' and len(o) > 2 and o[2] in level and o[2] not in replaced and \
                        (o[1] == 0 or o[1] == 'self' or o[1] == (f.params() or [''])[0]):
                    rep.violation('class-level-container', f'{c.name}.{o[2]} {f.qual}',
                                  f'{f.module.rel}:{f.node.lineno} {f.qual}',
                                  f'{f.qual} changes {o[2]}, which is a class variable: all objects in all threads share it')


# cached functions whose results may be lists, and who promised not to change them
def cached_results(ch):
    ix, rep = ch.ix, ch.rep
    cached = {}
    for f in ix.all_functions():
        decs = [last(d.func if isinstance(d, ast.Call) else d) for d in f.node.decorator_list]
        if not any(d in ('lru_cache', 'cache', 'cached_property') for d in decs):
            continue
        rep.count('cached_functions')
        ann = unparse(f.node.returns) if f.node.returns is not None else ''
        if ann in ('str', 'int', 'bool', 'float', 'bytes') or ann.startswith(('Tuple[', 'FrozenSet')):
            rep.ok(f'{f.qual}: cached results are immutable')
            continue
        cached[f.name] = f
        c = f.cls
        if ann and (ix.find_class(f.module, ann) is not None or 'Parser' in ann or 'Grammar' in ann):
            rep.violation('cached-object', f.qual, f'{f.module.rel}:{f.node.lineno} {f.qual}',
                          f'{f.qual} caches objects of type {ann} for all threads')
    for f in ix.all_functions():
        sc = ch.scopes[id(f.node)]
        names = {k for k, vs in sc.assigned.items()
                 if any(isinstance(v, ast.Call) and last(v.func) in cached for v in vs)}
        if not names:
            continue
        rep.count('uses_of_cached_results')
        for n in ast.walk(f.node):
            bad = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                    dotted(n.func.value) in names:
                bad = dotted(n.func.value)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and dotted(n.value) in names:
                bad = dotted(n.value)
            elif isinstance(n, ast.AugAssign) and dotted(n.target) in names:
                bad = dotted(n.target)
            if bad:
                rep.violation('cached-result-changed', f'{f.qual} {bad}', f'{f.module.rel}:{n.lineno} {f.qual}',
                              f'{f.qual} changes {bad}, the result of a cached function that others get as well')
