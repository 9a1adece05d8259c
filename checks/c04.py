"""C04: a Grammar object can be used again; instances of the same grammar class are independent."""
from __future__ import annotations
import ast

from sa.src import Index, Func, Class, FUNC, dotted, unparse, own_nodes, AnalysisError
from sa.effects import Effects
from sa.callgraph import CallGraph
from sa.flow import Flow, Client

EXPLANATION = (
    'Side-effect analysis: every attribute of a parser object or of the grammar object that code reachable from a '
    'parse writes or mutates must be assigned a fresh value by the reset routine of that class (on every path), or '
    'by Grammar.__call__ before the first parser runs; typestate analysis of Grammar.__call__ (state, reachable '
    'parsers and resume parsers are reset before the first parser call unless the grammar was never used) and of '
    'all other Grammar methods that run parsers (they leave the grammar marked as used); no in-place mutation of '
    'class-level tables through an instance; parsers are never taken from the class during a parse.')
ASSUMPTIONS = ['user-supplied match, parse and smart functions keep no state of their own',
               'listed lazily computed attributes depend on the structure of the grammar only (audited by hand)']

ATTR_TYPES = {'_children[]': 'Node', 'children[]': 'Node', '_result[]': 'Node', 'path[]': 'Node',
              '_grammar': 'Grammar', 'grammar': 'Grammar', 'tree__': 'RootNode', 'trail[]': 'Node',
              'nodes[]': 'Node'}
VAR_TYPES = {'node': 'Node', 'nd': 'Node', 'child': 'Node', 'tree': 'RootNode', 'grammar': 'Grammar',
             'parser': 'Parser'}

# lazily computed from the structure of the grammar or set up once, independent of documents
STRUCTURAL = {
    '_desc_trails_cache', '_descendants_cache', '_symbol', '_sub_parsers', 'sub_parsers', 'grammar', '_grammar',
    '_parse_proxy', 'groups', 'regexp', 'is_lookahead_', 'node_name', 'drop_content', 'disposable', 'pname',
    'cycle_reached', 'associated_symbol_cache__', 'ptype',
    'expired',                   # a pattern that timed out once is not compiled again
    'static_analysis_caches__', 'static_analysis_pending__', 'static_analysis_errors__',
    'parser_names__', 'parser_initialization__', 'unconnected_parsers__', 'all_parsers__', 'root_parser__',
}
# written by the machinery around a parse on purpose
DRIVER = {'_dirty_flag__', 'cancel_query__', 'cancel_query_last__'}
CONTAINER_CALLS = {'dict', 'list', 'set', 'defaultdict', 'deque', 'OrderedDict', 'Counter', 'frozenset', 'tuple',
                   'str', 'int', 'bool'}


class MustStore(Client):
    """atoms: (name of the object, frozenset of attributes that have been given a new value)"""

    def __init__(self, ix, runtime: Class):
        self.ix, self.runtime = ix, runtime
        self.values = {}

    def event(self, kind, node, atom, flow, func):
        obj, done = atom
        if kind == 'store' and isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) \
                and node.value.id == obj:
            st = node._stmt
            v = getattr(st, 'value', None)
            if not isinstance(st, ast.AugAssign):
                self.values.setdefault(node.attr, []).append((v, func))
                return [(obj, done | {node.attr})]
        if kind == 'call' and isinstance(node.func, ast.Attribute) and node.func.attr == 'clear' \
                and isinstance(node.func.value, ast.Attribute) and isinstance(node.func.value.value, ast.Name) \
                and node.func.value.value.id == obj:
            return [(obj, done | {node.func.value.attr})]
        if kind == 'call' and isinstance(node.func, ast.Name) and node.func.id == 'setattr' and len(node.args) == 3 \
                and isinstance(node.args[0], ast.Name) and node.args[0].id == obj \
                and isinstance(node.args[1], ast.Constant):
            self.values.setdefault(node.args[1].value, []).append((node.args[2], func))
            return [(obj, done | {node.args[1].value})]
        return [atom]

    def may_raise(self, call, atom, flow, func):
        return False

    def target(self, call, atom, flow, func):
        f = call.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super':
                return self.ix.lookup_super(self.runtime, func.cls, f.attr) if func.cls else None
            if isinstance(f.value, ast.Name):
                if f.value.id == atom[0]:
                    return self.ix.lookup(self.runtime, f.attr)
                c = self.ix.find_class(func.module, f.value.id)
                if c is not None and call.args and isinstance(call.args[0], ast.Name) \
                        and call.args[0].id == atom[0]:
                    return self.ix.lookup(c, f.attr)
        elif isinstance(f, ast.Name) and any(isinstance(a, ast.Name) and a.id == atom[0] for a in call.args):
            return self.ix.resolve_func(func.module, f.id)
        return None

    def bind(self, callee, call, atom, flow, func):
        ps = callee.params()
        if callee.is_method and not (isinstance(call.func, ast.Attribute) and call.args
                                     and isinstance(call.func.value, ast.Name)
                                     and call.func.value.id != atom[0]):
            return ps[0], atom[1]
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Name) and a.id == atom[0] and i < len(ps):
                return ps[i], atom[1]
        return ps[0] if ps else '', atom[1]

    def unbind(self, callee, call, atom, before, flow, func):
        return before[0], atom[1]


def must_assigned(ix, cls: Class, name: str):
    f = ix.lookup(cls, name)
    if f is None:
        raise AnalysisError(f'{cls.name}.{name} has vanished')
    cl = MustStore(ix, cls)
    o = Flow(cl).run(f, [(f.params()[0], frozenset())])
    if not o.ret:
        return set(), cl.values, f
    res = None
    for _, d in o.ret:
        res = d if res is None else res & d
    return set(res), cl.values, f


def class_level_mutables(ix, cls: Class):
    """attributes with a mutable container as class-level default"""
    res = set()
    for k in ix.mro(cls):
        for n, e in k.assigns.items():
            if isinstance(e, (ast.Dict, ast.List, ast.Set)) or isinstance(e, ast.Call) and \
                    (dotted(e.func) or '').split('.')[-1] in ('dict', 'list', 'set', 'defaultdict', 'deque'):
                res.add(n)
    return res


# -- C: typestate of Grammar.__call__ -----------------------------------------------------------------------

class Driver(Client):
    """atom: (parser names, flag known: None/True/False, frozenset of facts)
    facts: g (grammar state reset), p (start parser's tree), r (resume parsers), set (flag stored True)"""

    def __init__(self, ix, G, rep):
        self.ix, self.G, self.rep = ix, G, rep
        self.parser_calls = 0
        self.resets = 0

    def is_flag(self, e):
        return isinstance(e, ast.Attribute) and e.attr == '_dirty_flag__'

    def branch(self, test, atom, truth, flow, func):
        names, known, facts = atom
        if self.is_flag(test):
            if known is None:
                return [(names, truth, facts)]
            return [atom] if known == truth else []
        return [atom]

    def resetting(self, e, func):
        """is e a function that resets the parser it is applied to?"""
        body = None
        if isinstance(e, ast.Lambda):
            body = [e.body]
        elif isinstance(e, ast.Name):
            for n in ast.walk(func.node):
                if isinstance(n, FUNC) and n.name == e.id:
                    body = n.body
            f = self.ix.resolve_func(func.module, e.id)
            if body is None and f is not None:
                body = f.node.body
        elif isinstance(e, ast.Attribute) and e.attr == 'reset':
            return True
        if body is None:
            return False
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'reset'
                   for b in body for n in ast.walk(b))

    def event(self, kind, node, atom, flow, func):
        names, known, facts = atom
        if kind == 'store':
            if self.is_flag(node):
                v = getattr(node._stmt, 'value', None)
                if isinstance(v, ast.Constant):
                    return [(names, known, (facts | {'set'}) if v.value else (facts - {'set'}))]
            if isinstance(node, ast.Name):
                v = getattr(node._stmt, 'value', None) or getattr(node._stmt, 'iter', None)
                is_for = isinstance(node._stmt, (ast.For, ast.AsyncFor))
                if v is None:
                    return [atom]
                if is_for:
                    return [(frozenset((a, k) for a, k in names if a != node.id), known, facts)]
                kinds = self.kinds(v, names, func)
                new = {(a, k) for a, k in names if a != node.id} | {(node.id, k) for k in kinds}
                return [(frozenset(new), known, facts)]
        if kind == 'load' and isinstance(node, ast.Attribute) and node.attr in ('resume_parsers__', 'all_parsers__'):
            for n in ast.walk(func.node):
                if isinstance(n, (ast.For, ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                    it = n.iter if isinstance(n, ast.For) else n.generators[0].iter
                    tg = n.target if isinstance(n, ast.For) else n.generators[0].target
                    if node in ast.walk(it) and isinstance(tg, ast.Name) \
                            and not (not isinstance(n, ast.For) and n.generators[0].ifs) \
                            and self.resets_each(n.body if isinstance(n, ast.For) else [n.elt], tg.id, func):
                        return [(names, known, facts | ({'r'} if node.attr == 'resume_parsers__' else {'r', 'p'}))]
            return [atom]
        if kind == 'call':
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr == '_reset__':
                self.resets += 1
                return [(names, known, facts | {'g'})]
            tgt = None
            if isinstance(f, ast.Attribute) and f.attr == 'apply' and node.args \
                    and self.resetting(node.args[0], func):
                tgt = f.value
            elif isinstance(f, ast.Attribute) and f.attr == 'reset':
                tgt = f.value
            elif isinstance(f, ast.Name) and node.args and self.resetting(f, func):
                tgt = node.args[0]
            if tgt is not None:
                k = self.kinds(tgt, names, func)
                if isinstance(f, ast.Attribute) and f.attr == 'reset' or isinstance(f, ast.Name):
                    k = set()       # single parsers only
                return [(names, known, facts | (k & {'p', 'r'}))]
            if isinstance(f, ast.Name) and (f.id, 'p') in names or \
                    isinstance(f, ast.Attribute) and f.attr in ('_parse', '__call__') and \
                    'p' in self.kinds(f.value, names, func):
                self.parser_calls += 1
                key = f'{self.G.name}.__call__'
                w = f'{func.module.rel}:{node.lineno} {func.qual}'
                if known is not False:
                    for need, what in (('g', 'state of the grammar object'), ('p', 'start parser and its '
                                       'sub-parsers'), ('r', 'resume parsers')):
                        if need not in facts:
                            self.rep.violation('run-without-reset', f'{key} {what}', w,
                                               f'a parser is run by "{unparse(node)}" on a path on which the {what} '
                                               f'may not have been reset since the last parse')
                if 'set' not in facts and known is not True:
                    self.rep.violation('not-marked-used', key, w,
                                       f'a parser is run by "{unparse(node)}" before the grammar object has been '
                                       f'marked as used')
        return [atom]

    def resets_each(self, body, var, func):
        for s in body:
            for n in ([s.value] if isinstance(s, ast.Expr) else [s] if isinstance(s, ast.expr) else []):
                if isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == var \
                            and (f.attr == 'apply' and n.args and self.resetting(n.args[0], func)):
                        return True
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) \
                    and isinstance(s.iter.func.value, ast.Name) and s.iter.func.value.id == var \
                    and isinstance(s.target, ast.Name):
                for x in s.body:
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                        g = x.value.func
                        if isinstance(g, ast.Attribute) and g.attr == 'reset' or \
                                isinstance(g, ast.Name) and self.resetting(g, func):
                            return True
        return False

    def kinds(self, e, names, func):
        """p: the start parser"""
        if isinstance(e, ast.Name):
            return {k for a, k in names if a == e.id}
        if isinstance(e, ast.IfExp):
            return self.kinds(e.body, names, func) | self.kinds(e.orelse, names, func)
        if isinstance(e, ast.BoolOp):
            r = set()
            for v in e.values:
                r |= self.kinds(v, names, func)
            return r
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            return {'p'}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'cast' and e.args:
            return self.kinds(e.args[-1], names, func)
        if isinstance(e, ast.Attribute) and e.attr in ('start_parser__', 'root_parser__'):
            return {'p'}
        return set()

    def may_raise(self, call, atom, flow, func):
        return True

    def target(self, call, atom, flow, func):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' \
                and f.attr != '_reset__':
            return self.G.methods.get(f.attr)
        return None

    def bind(self, callee, call, atom, flow, func):
        ps = callee.params()[1:]
        new = set()
        for p, a in zip(ps, call.args):
            new |= {(p, k) for k in self.kinds(a, atom[0], func)}
        return frozenset(new), atom[1], atom[2]

    def unbind(self, callee, call, atom, before, flow, func):
        return before[0], atom[1], atom[2]

    def nested(self, node, atom, flow, func):
        return [atom]


class Marks(Client):
    """D/E: methods other than __call__ that run parsers.  atom: (ran, flag)  flag: last value stored"""

    def __init__(self, ix, G, runners):
        self.ix, self.G, self.runners = ix, G, runners

    def event(self, kind, node, atom, flow, func):
        if kind == 'store' and isinstance(node, ast.Attribute) and node.attr == '_dirty_flag__':
            v = getattr(node._stmt, 'value', None)
            return [(atom[0], bool(v.value) if isinstance(v, ast.Constant) else None)]
        if kind == 'call':
            d = node.func.attr if isinstance(node.func, ast.Attribute) else dotted(node.func)
            if d in self.runners:
                return [(True, atom[1])]
        return [atom]

    def may_raise(self, call, atom, flow, func):
        return False

    def target(self, call, atom, flow, func):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' \
                and f.attr not in self.runners:
            return self.G.methods.get(f.attr)
        return None


def check(ix: Index, rep, tier):
    P, G = ix.cls('parse', 'Parser'), ix.cls('parse', 'Grammar')
    eff = Effects(ix, attr_types=ATTR_TYPES, var_types=VAR_TYPES)
    skip = ('__init__', '__deepcopy__', 'static_analysis', 'static_analysis__')
    cg = CallGraph(ix, ('parse', 'trace'), skip=skip)
    roots = [G.methods['__call__'], ix.func('trace', 'trace_history'), ix.func('parse', 'cancel_proxy')]
    subs = ix.subclasses(P)
    for c in subs:
        for n in ('__call__', '_parse', '_quick_parse'):
            if n in c.methods:
                roots.append(c.methods[n])
    reach = cg.reach(roots)
    # functions that are only the reset routines themselves
    resets = {id(c.methods[n].node) for c in subs + [G] for n in ('reset', '_reset__') if n in c.methods}
    rep.count('functions_reachable_from_a_parse', len(reach))
    rep.count('parser_classes', len(subs))
    rep.floor('functions_reachable_from_a_parse', 80)

    g_attrs, g_vals, g_reset = must_assigned(ix, G, '_reset__')
    # attributes given a new value by Grammar.__call__ before the first parser call
    pre = pre_assigned(ix, G)
    per_class = {c.name: must_assigned(ix, c, 'reset') for c in subs}

    grammar_attr_names = set()
    for f in G.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' \
                    and isinstance(n.ctx, ast.Store):
                grammar_attr_names.add(n.attr)

    n_writes = 0
    mutated_in_place = set()
    seen = set()
    ids = {id(f.node): f for f in reach}
    for k, f in ids.items():
        if k in resets:
            continue
        for e in eff.events.get(k, ()):
            if e.via:
                continue
            o = e.origin
            path = [s for s in o[2:]] if o[0] in ('p', 'g', 'x') else None
            if path is None:
                continue
            attr = e.attr
            inplace = attr == '[]'
            names = [s for s in path if s != '[]']
            if inplace:
                if not names:
                    continue
                attr = names[-1]
                owner = names[:-1]
            else:
                owner = names
            if attr == '?':
                continue
            # whose attribute?
            kind = None
            if owner and owner[-1] in ('_grammar', 'grammar'):
                kind = 'G'
            elif not owner and o[0] == 'p' and f.cls is not None and not f.is_static and o[1] == 0:
                if G in ix.mro(f.cls):
                    kind = 'G'
                elif P in ix.mro(f.cls):
                    kind = 'P'
            elif owner and owner[-1] in ('parser', 'lookbehind', 'parsers'):
                kind = 'P?'
            elif attr in grammar_attr_names and attr.endswith('__'):
                kind = 'G'
            if kind is None:
                # free functions taking a parser or grammar
                a = f.node.args
                ps = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
                if o[0] == 'p' and not owner and o[1] < len(ps):
                    ann = ps[o[1]].annotation
                    s = unparse(ann) if ann is not None else ''
                    if 'Parser' in s and 'Error' not in s or ps[o[1]].arg == 'parser':
                        kind = 'P?'
                    elif 'Grammar' in s:
                        kind = 'G'
            if kind is None:
                continue
            if attr in STRUCTURAL or attr in DRIVER:
                continue
            key = (kind, f.cls.name if kind == 'P' else '', attr)
            n_writes += 1
            if inplace:
                mutated_in_place.add((kind, attr))
            if kind == 'G':
                if attr in g_attrs or attr in pre:
                    rep.ok(f'Grammar.{attr} (written in {f.qual}) is renewed before every parse')
                    continue
                if temporary(ix, f, attr):
                    rep.ok(f'Grammar.{attr} is restored in {f.qual}')
                    continue
                if attr == 'parser':
                    continue
                if ('G', attr) in seen:
                    continue
                seen.add(('G', attr))
                rep.violation('grammar-state-not-reset', f'Grammar.{attr}', e.where,
                              f'"{unparse(e.node)}" changes {attr} of the grammar object during a parse, but neither '
                              f'Grammar._reset__ nor Grammar.__call__ gives it a new value on every path before the '
                              f'next parse')
            elif kind == 'P':
                bad = [c.name for c in ([f.cls] + ix.subclasses(f.cls, strict=True))
                       if attr not in per_class[c.name][0] and uses(ix, c, f)]
                if attr == 'visited':
                    bad = [b for b in bad if not blackhole(ix, ix.classes[b][0])]
                if attr == 'parser' and f.name == '_resolve_parser_name':
                    continue
                if not bad:
                    rep.ok(f'{f.cls.name}.{attr} (written in {f.qual}) is renewed by reset')
                    continue
                for b in bad[:1]:
                    if (b, attr) in seen:
                        continue
                    seen.add((b, attr))
                    rep.violation('parser-state-not-reset', f'{f.cls.name}.{attr}', e.where,
                                  f'"{unparse(e.node)}" changes {attr} of the parser during a parse, but {b}.reset '
                                  f'does not give it a new value on every path')
            else:
                if attr in set.union(*[v[0] for v in per_class.values()]):
                    rep.ok()
                    continue
                if attr in ('name', 'result', '_pos'):
                    continue
                if ('P', attr) in seen:
                    continue
                seen.add(('P', attr))
                rep.violation('parser-state-not-reset', f'Parser.{attr}', e.where,
                              f'"{unparse(e.node)}" changes {attr} of another parser during a parse; no reset '
                              f'routine renews it')
    rep.count('writes_of_parser_or_grammar_state', n_writes)
    rep.floor('writes_of_parser_or_grammar_state', 25)

    # reset values must be fresh
    for attr, vals in list(g_vals.items()):
        fresh(ix, rep, 'Grammar', attr, vals, ('G', attr) in mutated_in_place)
    for c in subs:
        for attr, vals in per_class[c.name][1].items():
            fresh(ix, rep, c.name, attr, vals, any(a == attr for _, a in mutated_in_place))

    driver(ix, rep, G)
    marks(ix, rep, P, G, cg)
    class_tables(ix, rep, eff, P, G)
    class_lookup(ix, rep, P, G, reach)


def uses(ix, c: Class, f: Func) -> bool:
    """can an object of class c run method f?  (f may be overridden and not called by super())"""
    m = ix.lookup(c, f.name)
    if m is f or m is None:
        return True
    # aliases (__call__ = Other.__call__) and super-calls
    if m is not None and id(m.node) == id(f.node):
        return True
    for k in ix.mro(c):
        g = k.methods.get(f.name)
        if g is None or g is f:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name \
                    and isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == 'super':
                return True
    return False


def blackhole(ix, c: Class) -> bool:
    """visited of classes that never memoise is one shared dictionary without __setitem__ effect"""
    for k in ix.mro(c):
        f = k.methods.get('__init__')
        if f is None:
            continue
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Attribute) and t.attr == 'visited' for t in ts) \
                        and isinstance(n.value, (ast.Name, ast.Call)):
                    nm = dotted(n.value) if isinstance(n.value, ast.Name) else None
                    v = n.value
                    if nm:
                        g = ix.resolve_global(f.module, nm)
                        if g is None:
                            return False
                        v = g[1]
                    if isinstance(v, ast.Call):
                        kc = ix.find_class(f.module, dotted(v.func) or '')
                        if kc is not None and '__setitem__' in kc.methods:
                            body = kc.methods['__setitem__'].node.body
                            return all(isinstance(s, (ast.Return, ast.Pass, ast.Expr)) and
                                       not any(isinstance(x, ast.Call) for x in ast.walk(s)) for s in body)
                    return False
    return False


def temporary(ix, f: Func, attr: str) -> bool:
    """the attribute is saved in a local variable and stored back in the same function (incl. its nested ones)"""
    saved, back = set(), False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == attr:
            saved |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Tuple):
            for t in n.targets:
                if isinstance(t, ast.Tuple) and len(t.elts) == len(n.value.elts):
                    saved |= {a.id for a, b in zip(t.elts, n.value.elts) if isinstance(a, ast.Name)
                              and isinstance(b, ast.Attribute) and b.attr == attr}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in saved \
                and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets):
            back = True
    return back


class Pre(MustStore):
    """attributes assigned before the first call of a parser; the walk stops there"""
    def __init__(self, ix, runtime):
        super().__init__(ix, runtime)
        self.at_calls = []
        self.d = Driver(ix, runtime, None)

    def event(self, kind, node, atom, flow, func):
        if kind == 'call' and isinstance(node.func, ast.Name) and node.func.id == 'parser' \
                or kind == 'call' and isinstance(node.func, ast.Name) and node.args and \
                node.func.id in self.parser_names(func):
            self.at_calls.append(atom[1])
            return []
        return super().event(kind, node, atom, flow, func)

    def parser_names(self, func):
        res = set()
        for n in own_nodes(func.node):
            if isinstance(n, ast.Assign) and self.d.kinds(n.value, frozenset(), func):
                res |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        return res

    def target(self, call, atom, flow, func):
        f = call.func
        if isinstance(f, ast.Attribute) and f.attr == '_reset__':
            return None
        return super().target(call, atom, flow, func)


def pre_assigned(ix, G):
    f = G.methods['__call__']
    cl = Pre(ix, G)
    Flow(cl).run(f, [('self', frozenset())])
    if not cl.at_calls:
        raise AnalysisError('no parser call found in Grammar.__call__')
    res = None
    for d in cl.at_calls:
        res = d if res is None else res & d
    return set(res)


def fresh(ix, rep, owner, attr, vals, inplace):
    for v, func in vals:
        if v is None:
            continue
        if any(isinstance(n, ast.Attribute) and n.attr == attr or isinstance(n, ast.Constant) and n.value == attr
               for n in ast.walk(v)):
            rep.violation('reset-value-shared', f'{owner}.{attr}', f'{func.module.rel}:{v.lineno} {func.qual}',
                          f'the reset value of {attr} depends on its former value ("{unparse(v)}")')
            continue
        if isinstance(v, ast.BoolOp) or isinstance(v, ast.IfExp):
            parts = v.values if isinstance(v, ast.BoolOp) else [v.body, v.orelse]
        else:
            parts = [v]
        for x in parts:
            if isinstance(x, ast.Name):
                loc = [n for n in own_nodes(func.node) if isinstance(n, (ast.Assign, ast.AnnAssign))
                       and any(isinstance(t, ast.Name) and t.id == x.id
                               for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
                if loc:
                    x = loc[-1].value
                elif x.id in func.all_params():
                    a = func.node.args
                    rep.violation('reset-value-shared', f'{owner}.{attr}', f'{func.module.rel}:{v.lineno} {func.qual}',
                                  f'{attr} is reset to the parameter {x.id}, whose default is one object shared by '
                                  f'all calls')
                    continue
                else:
                    g = ix.resolve_global(func.module, x.id)
                    if g is not None and inplace and not isinstance(g[1], ast.Constant):
                        rep.violation('reset-value-shared', f'{owner}.{attr}',
                                      f'{func.module.rel}:{v.lineno} {func.qual}',
                                      f'{attr} is reset to the module-level object {x.id}, but is modified in place '
                                      f'during a parse')
                        continue
            if inplace and isinstance(x, ast.Attribute) and (dotted(x) or '').split('.')[0] != 'self' or \
                    inplace and isinstance(x, ast.Attribute) and x.attr != attr and '__class__' in (dotted(x) or ''):
                rep.violation('reset-value-shared', f'{owner}.{attr}', f'{func.module.rel}:{v.lineno} {func.qual}',
                              f'{attr} is reset to {unparse(x)}, which is not a new object, but is modified in place '
                              f'during a parse')
                continue
            rep.ok()


def driver(ix, rep, G):
    f = G.methods['__call__']
    cl = Driver(ix, G, rep)
    start = frozenset({('start_parser', 'p')})
    ps = f.all_params()
    if 'start_parser' not in ps:
        start = frozenset({(ps[2], 'p')}) if len(ps) > 2 else frozenset()
    o = Flow(cl).run(f, [(start, None, frozenset())])
    rep.count('parser_calls_in_driver', cl.parser_calls)
    rep.floor('parser_calls_in_driver', 2)
    unset = [n for n in own_nodes(f.node) if isinstance(n, ast.Assign)
             and any(isinstance(t, ast.Attribute) and t.attr == '_dirty_flag__' for t in n.targets)
             and isinstance(n.value, ast.Constant) and not n.value.value]
    for n in unset:
        rep.violation('not-marked-used', 'Grammar.__call__ flag cleared', f'{f.module.rel}:{n.lineno} {f.qual}',
                      'the mark "used" is removed again after parsing')
    rep.ok('Grammar.__call__: state, start parser and resume parsers are reset before every parser call', 1)


def marks(ix, rep, P, G, cg):
    """methods of Grammar that run parsers other than by __call__ must leave the grammar marked"""
    # names of functions that (transitively, within parse.py) call a parser's _parse directly
    runners = set()
    full = CallGraph(ix, ('parse', 'trace'))

    def runs(f, c=None, seen=frozenset()):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr in ('_parse', '_quick_parse'):
                    return True
                h = c.methods.get(x.func.attr) if c is not None and dotted(x.func.value) == 'self' \
                    and x.func.attr.startswith('_') and x.func.attr not in seen else None
                if h is not None and runs(h, c, seen | {x.func.attr}):
                    return True
        return False
    for c in ix.subclasses(P):
        for n, f in c.methods.items():
            if n in ('static_analysis', 'can_capture_zero_length') or n.startswith('_') is False:
                if n in ('__call__', 'reset', 'apply', 'descendants', 'set_proxy'):
                    continue
                if runs(f, c):
                    runners.add(n)
    n = 0
    for name, f in G.methods.items():
        if name == '__call__':
            continue
        cl = Marks(ix, G, runners)
        o = Flow(cl).run(f, [(False, None)])
        for ran, flag in o.ret:
            if ran:
                n += 1
                if flag is not True:
                    rep.violation('ran-parsers-unmarked', f'Grammar.{name}', f.where,
                                  f'{name} runs parsers (by {sorted(runners)}) and can leave the grammar object not '
                                  f'marked as used, so that the first parse would see memoised results of that run')
                else:
                    rep.ok(f'Grammar.{name} marks the grammar object as used')
    rep.count('methods_running_parsers_outside_call', n)
    rep.floor('methods_running_parsers_outside_call', 1)


def class_tables(ix, rep, eff, P, G):
    tables = class_level_mutables(ix, G)
    for c in ix.subclasses(P):
        tables |= class_level_mutables(ix, c)
    tables -= {'parser_initialization__', 'static_analysis_pending__', 'static_analysis_errors__', 'parser_names__'}
    n = 0
    for k, evs in eff.events.items():
        f = eff.funcs[k]
        if f.module.name not in ('parse', 'trace', 'dsl', 'testing', 'ebnf', 'pipeline'):
            continue
        for e in evs:
            if e.via or e.attr != '[]' or e.origin[0] not in ('p', 'g', 'x'):
                continue
            hit = [s for s in e.origin[2:] if s in tables]
            n += 1
            if hit:
                rep.violation('class-table-mutated', f'{f.qual} {hit[-1]}', e.where,
                              f'"{unparse(e.node)}" modifies {hit[-1]}, which may be the table of the class and thus '
                              f'is shared by all grammar objects of that class')
    rep.ok(f'class-level tables {sorted(tables)} are not modified in place', len(tables))
    rep.count('class_level_tables', len(tables))
    rep.floor('class_level_tables', 3)


def class_lookup(ix, rep, P, G, reach):
    """during a parse parsers are looked up in the instance (grammar[name]), never in the class"""
    n = 0
    for f in reach:
        for x in own_nodes(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'getattr' and x.args:
                d = dotted(x.args[0]) or ''
                if f.qual == 'Grammar.__getitem__':
                    continue
                if d.split('.')[-1] in ('grammar', '_grammar') and not isinstance(x.args[1], ast.Constant):
                    n += 1
                    rep.violation('class-level-parser', f.qual, f'{f.module.rel}:{x.lineno} {f.qual}',
                                  f'"{unparse(x)}" yields the parser object of the class when the instance does not '
                                  f'have its own copy yet')
    rep.ok(n=1)
