"""C07: content and children of a node stay in step; results are texts or tuples of nodes."""
from __future__ import annotations
import ast

from sa.src import Index, dotted, unparse
from sa.kinds import Kinds, K, STR, EMPTY, elem

EXPLANATION = (
    'Flow-sensitive, interprocedural inference of the kinds of values (text, node, tuple, list, generator, None ...) over '
    'the whole package, with narrowing by tests. Each value that becomes the result of a node (constructors of the '
    'node classes, assignments to "result", _set_result) must not be anything else than a text, a node or a tuple of '
    'nodes; values of nodes declared to be leaves must be texts; the fields _result and _children, where they are '
    'written directly, must be written as a matching pair on every path through the function, each path being '
    'analysed on its own; annotations that the inference relies on are checked against the values returned and '
    'passed.')
ASSUMPTIONS = ['values whose kind cannot be told (results of user-supplied callbacks, of untyped containers) are what '
               'their annotations or comments say',
               'exceptions between the two writes of a pair (of plain attributes) do not occur']

OKAY = {'tuple', 'str', 'node', '?'}
NAMES = {'none': 'None', 'gen': 'a generator', 'int': 'a number', 'seq': 'any sequence', 'obj': 'an object'}


def listing(b):
    return ', '.join(sorted(NAMES.get(x, 'a ' + x) for x in b))


def bad_result(k: K):
    """why a value of this kind must not become the result of a node"""
    b = k.a - OKAY
    if b:
        return 'the result of the node may be ' + listing(b)
    if 'tuple' in k.a:
        b = elem(k).a - {'node', '?'}
        if b:
            return 'the result of the node may be a tuple that contains ' + ', '.join(sorted(
                {'none': 'None', 'str': 'texts', 'int': 'numbers'}.get(x, x + 's') for x in b))
    return ''


def unknown(k: K):
    return '?' in k.a or not k.a or 'tuple' in k.a and ('?' in elem(k).a)


def parted(vid):
    """the node whose _children or _result a value was read from"""
    if isinstance(vid, tuple) and vid and vid[0] == 'attr':
        base, attr = vid[1].rsplit('.', 1)
        return base, attr
    return None, None


def pair(c: K, r: K):
    """'' if children c and result r belong together"""
    if c.items == () and c.a <= {'tuple'}:
        if r.items == () and r.a <= {'tuple'} or r.only('str'):
            return ''
        if r.a <= {'str', '?'}:
            return ''
        return 'the children are an empty tuple, but the result may be ' + listing(r.a - {'str', '?'})
    cv, rv = c.vid, r.vid
    if cv is not None and (cv == rv or rv == ('or', cv)):
        return ''
    cb, ca = parted(cv)
    rb, ra = parted(rv)
    if cb is not None and cb == rb and ca == '_children' and ra in ('_result', '_children'):
        return ''
    return 'the children and the result come from different values'


def is_param(vid):
    if isinstance(vid, tuple) and len(vid) == 2 and vid[0] == 'or':
        return is_param(vid[1])
    return isinstance(vid, tuple) and len(vid) == 3 and vid[0] == 'param'


class Check:
    def __init__(self, ix, rep):
        self.ix, self.rep = ix, rep
        base = ix.cls('nodetree', 'Node')
        fam = list(ix.subclasses(base))
        if base not in fam:
            fam.append(base)
        self.classes = {c.name for c in fam}
        self.inits = {c.name: ix.lookup(c, '__init__') for c in fam if ix.lookup(c, '__init__') is not None}
        self.seen = {}
        self.deferred = {}       # function -> [(base, C, R, func, node)]
        self.calls = []          # (callee name, node, env, fr, recv, args, kw)
        self.kk = kk = Kinds(ix, self.classes, self.visit)
        direct = set()
        for f in ix.all_functions():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in ('_result', '_children') \
                        and self.nodeish(f, n.value):
                    direct.add(id(f.node))
        self.direct = direct
        self.setters = {id(x.node) for c in fam for x in [c.methods.get('_set_result'), c.setters.get('result'),
                                                          c.methods.get('__init__')]
                        if x is not None and 'result' in x.params()}
        kk.by_paths = lambda f: id(f.node) in direct or id(f.node) in self.setters
        kk.implied = self.implied

    def nodeish(self, f, e):
        """self of a class that is not a node has got its own _result"""
        return not (dotted(e) == 'self' and f.cls is not None and f.cls.name not in self.classes)

    def implied(self, t, truth, env, fr):
        if truth and isinstance(t, ast.Name) and t.id == 'leafhint' and fr.func.name == '__init__' and fr.func.cls is not None \
                and fr.func.cls.name in self.classes and 'result' in fr.func.params():
            k = env.find('result')
            if k is not None:
                env['result'] = STR.named(k.vid)

    def note(self, fr, node, rule, what, k, msg):
        key = (rule, f'{fr.func.module.name}.{fr.func.qual} {what}')
        old = self.seen.get(key)
        if old is None or msg and not old[0]:
            self.seen[key] = (msg, fr.func, node, k)

    def visit(self, what, fr, node, *a):
        f = fr.func
        if what == 'call':
            self.on_call(fr, node, *a)
        elif what == 'store':
            recv, v, env, expr = a
            if not self.nodeish(f, node.value):
                return
            if node.attr == 'result' and (recv.a & {'node', '?'}):
                self.note(fr, node, 'result', unparse(expr if expr is not None else node, 60), v, bad_result(v))
            elif node.attr == '_result' and (recv.a & {'node', '?'}):
                if v.a - {'tuple', 'str', '?'}:
                    self.note(fr, node, 'field', unparse(expr if expr is not None else node, 60), v,
                              'the field _result may be ' + listing(v.a - {'tuple', 'str', '?'}))
                else:
                    self.note(fr, node, 'field', unparse(expr if expr is not None else node, 60), v, bad_result(v))
            elif node.attr == '_children' and (recv.a & {'node', '?'}):
                self.note(fr, node, 'field', unparse(expr if expr is not None else node, 60), v,
                          'the field _children may be ' + listing(v.a - {'tuple', '?'}) if v.a - {'tuple', '?'} else bad_result(v))
        elif what == 'path':
            self.on_path(fr, node, a[0])
        elif what == 'return':
            self.on_return(fr, node, a[0])
        elif what == 'lambda':
            pass

    # -- values that become results ---------------------------------------------------------------

    def on_call(self, fr, node, name, recv, args, kw, env):
        if fr.choose is not None and isinstance(node.func, ast.Attribute) and any(
                id(x.node) in self.direct or id(x.node) in self.setters for x in self.kk.callees(node, recv, fr)):
            v = node.func.value
            env[('self' if isinstance(v, ast.Call) else unparse(v, 200)) + '.!set'] = STR
        if fr.choose is None:
            self.calls.append((name, node, env.copy_(), fr, recv, args, kw))
        init = self.inits.get(name)
        ps = init.params()[1:] if init is not None else None
        argexprs = list(node.args)
        if name == '__init__' and isinstance(node.func, ast.Attribute):
            v = node.func.value
            if isinstance(v, ast.Call) and dotted(v.func) == 'super' and fr.func.cls is not None and \
                    fr.func.cls.name in self.classes:
                init = self.ix.lookup_super(fr.func.cls, fr.func.cls, '__init__')
                ps = init.params()[1:] if init is not None else None
            elif dotted(v) and dotted(v).split('.')[-1] in self.inits:
                init = self.inits[dotted(v).split('.')[-1]]
                ps, args, argexprs = init.params()[1:], args[1:], argexprs[1:]
        elif name == '__class__' and recv is not None and recv.a == {'node'}:
            init = self.inits.get('Node')
            ps = init.params()[1:]
        if ps is not None and 'result' in ps:
            if any(isinstance(x, ast.Starred) for x in argexprs):
                return
            bound = dict(zip(ps, args))
            exprs = dict(zip(ps, argexprs))
            bound.update({k: v for k, v in kw.items() if k})
            exprs.update({k.arg: k.value for k in node.keywords if k.arg})
            if 'result' not in bound:
                return
            k, e = bound['result'], exprs['result']
            self.note(fr, node, 'result', unparse(e, 60), k, bad_result(k))
            h = exprs.get('leafhint')
            d = dict(zip(init.params()[::-1], init.node.args.defaults[::-1]))
            leaf = h if h is not None else d.get('leafhint')
            if leaf is None or isinstance(leaf, ast.Constant) and not leaf.value or name == 'FrozenNode':
                return
            if isinstance(leaf, ast.Constant):
                m = ''
                if k.a & {'tuple', 'node'}:
                    m = 'a node is declared to be a leaf, but its result may be ' + listing(k.a & {'tuple', 'node'})
                elif '?' in k.a:
                    m = 'a node is declared to be a leaf, but its result cannot be shown to be a text'
                self.note(fr, node, 'leaf', unparse(e, 60), k, m)
            else:
                t = self.kk.narrow(leaf, env.copy_(), True, fr)
                k = self.kk.ev(e, t, fr)
                m = ''
                if k.a & {'tuple', 'node'} and not self.hint(leaf, env):
                    m = f'a node is declared to be a leaf if {unparse(leaf, 40)}, but its result may be ' + \
                        listing(k.a & {'tuple', 'node'})
                self.note(fr, node, 'leaf', unparse(e, 60), k, m)
        elif name == '_set_result' and args:
            self.note(fr, node, 'result', unparse(node.args[0], 60), args[0], bad_result(args[0]))

    def hint(self, leaf, env):
        """the flag is handed through from a parameter of the constructor"""
        return isinstance(leaf, ast.Name) and is_param((env.find(leaf.id) or STR).vid) and leaf.id == 'leafhint'

    # -- pairs ----------------------------------------------------------------------------------------

    def on_path(self, fr, node, env):
        f = fr.func
        if 'dead.' in env:
            return
        bases = sorted({k.rsplit('.!', 1)[0] for k in env if '.!' in k})
        if id(f.node) in self.setters:
            me = f.params()[0]
            self.note(fr, node, 'set', f'{me}.result', STR, '' if me in bases else
                      f'a path through {f.name}() leaves the result of the node as it was')
        for b in bases:
            c, r, leaf = env.get(b + '.!_children'), env.get(b + '.!_result'), env.get(b + '.!leaf')
            what = f'{b}._children/_result'
            if c is not None and r is not None:
                c, r = self.emptied(c, env), self.emptied(r, env)
                m = pair(c, r)
                if m and self.known(c) and self.known(r):
                    self.deferred.setdefault(id(f.node), []).append((b, c, r, f, node))
                    continue
                self.note(fr, node, 'pair', what, c, m)
            elif c is not None:
                self.note(fr, node, 'pair', what, c, f'_children is written, but not _result, on a path through {f.name}()')
            elif r is not None:
                if leaf is not None and not r.a & {'tuple', 'node'}:
                    self.note(fr, node, 'pair', what, r, '')
                elif b.isidentifier() and b in f.params() and not r.a & {'tuple', 'node'} and not f.is_property and not (
                        env.get(b + '._result') is not None and parted(env[b + '._result'].vid)[1] == '_children'):
                    self.deferred.setdefault(id(f.node), []).append((b, None, r, f, node))
                else:
                    self.note(fr, node, 'pair', what, r, f'_result is written, but not _children, on a path through {f.name}() '
                              'where the node may have children')

    @staticmethod
    def emptied(k, env):
        """a copy of children that have turned out to be empty"""
        v = k.vid
        while isinstance(v, tuple) and v and v[0] in ('copy', 'or'):
            v = v[1]
        base, attr = parted(v)
        if attr == '_children':
            now = env.get(f'{base}._children')
            if now is not None and now.items == ():
                return EMPTY
        return k

    @staticmethod
    def known(k):
        return is_param(k.vid) or k.items == ()

    def resolve_deferred(self):
        for fid, items in self.deferred.items():
            f = items[0][3]
            ps = f.params()
            sites = [x for x in self.calls if x[0] == f.name]
            method = f.cls is not None and not f.is_static
            for b, c, r, f, node in items:
                class fr:
                    func = f
                what = f'{b}._children/_result'
                if not sites:
                    self.note(fr, node, 'pair', what, r, f'{f.name}() writes _children and _result from values that do not '
                              'belong together')
                    continue
                for name, call, env, cfr, recv, args, kw in sites:
                    exprs = list(call.args)
                    bound = dict(zip(ps[1:] if method else ps, zip(exprs, args)))
                    bound.update({k.arg: (k.value, kw.get(k.arg)) for k in call.keywords if k.arg})
                    if method and isinstance(call.func, ast.Attribute):
                        bound[ps[0]] = (call.func.value, recv)
                    if c is None:
                        if b not in bound:
                            continue
                        k = env.find(unparse(bound[b][0], 200) + '._children')
                        m = '' if k is not None and k.items == () else \
                            f'{f.name}() writes _result, but not _children, of a node that may have children here'
                    else:
                        m = pair(self.subst(c, bound), self.subst(r, bound))
                    self.note(cfr, call, 'pair', unparse(call, 60), r, m)

    @staticmethod
    def subst(k, bound):
        v = k.vid
        if isinstance(v, tuple) and v and v[0] == 'or' and is_param(v[1]):
            x = bound.get(v[1][2])
            return x[1].named(('or', x[1].vid)) if x is not None and x[1] is not None else k
        if is_param(v):
            x = bound.get(v[2])
            return x[1] if x is not None and x[1] is not None else k
        return k

    # -- annotations ------------------------------------------------------------------------------------

    def on_return(self, fr, node, k):
        f = fr.func
        if fr.node is not f.node or fr.choose is not None:
            return
        d = self.kk.ann(f.node.returns)
        if d is None or '?' in d.a or not d.a & {'node', 'tuple'} or d.a - {'node', 'tuple', 'str', 'none'}:
            return
        if 'tuple' in d.a and not (elem(d).a & {'node'}):
            return
        b = k.a - d.a - {'?', 'node', 'obj'}
        m = ''
        if b & {'list', 'gen', 'set', 'dict', 'int', 'seq'} or 'tuple' in b:
            m = f'{f.name}() is declared to return {unparse(f.node.returns, 60)}, but may return {listing(b)}'
        elif 'tuple' in k.a and 'tuple' in d.a and d.items is None and elem(d).a == {'node'} and elem(k).a - {'node', '?'}:
            m = f'{f.name}() is declared to return {unparse(f.node.returns, 60)}, but the tuple may contain other things'
        self.note(fr, node, 'declared', unparse(node, 60), k, m)

    def run(self):
        self.kk.run()
        self.arguments()
        self.resolve_deferred()
        return self.seen

    def arguments(self):
        for name, call, env, fr, recv, args, kw in self.calls:
            for f in self.kk.callees(call, recv, fr):
                ps = f.params()
                if f.cls is not None and not f.is_static and isinstance(call.func, ast.Attribute) and not (
                        isinstance(call.func.value, ast.Name) and call.func.value.id in self.classes):
                    ps = ps[1:]
                a = f.node.args
                anns = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
                if any(isinstance(x, ast.Starred) for x in call.args):
                    continue
                bound = dict(zip(ps, zip(call.args, args)))
                bound.update({k.arg: (k.value, kw.get(k.arg)) for k in call.keywords if k.arg})
                for p, (e, k) in bound.items():
                    d = self.kk.ann(anns.get(p))
                    if d is None or k is None or '?' in d.a or not d.a <= {'tuple', 'str', 'node', 'none'} or \
                            not d.a & {'tuple', 'node'}:
                        continue
                    if 'tuple' in d.a and not elem(d).a & {'node'}:
                        continue
                    b = k.a & {'list', 'gen', 'set', 'dict'}
                    m = ''
                    if b:
                        m = f'{f.name}() expects {unparse(anns[p], 60)} for "{p}", but may get {listing(b)}'
                    elif 'tuple' in k.a and 'tuple' in d.a and d.items is None and elem(d).a == {'node'} and \
                            elem(k).a - {'node', '?'}:
                        m = f'{f.name}() expects {unparse(anns[p], 60)} for "{p}", but the tuple may contain other things'
                    self.note(fr, call, 'argument', f'{f.name} {p}={unparse(e, 40)}', k, m)


RULES = {'set': 'functions that must set the result', 'result': 'values that become results', 'leaf': 'values of leaves', 'field': 'direct writes of fields',
         'pair': 'pairs of children and result', 'declared': 'declared return values', 'argument': 'declared parameters'}


def check(ix: Index, rep, tier):
    c = Check(ix, rep)
    seen = c.run()
    for (rule, construct), (msg, f, node, k) in sorted(seen.items(), key=lambda x: x[0]):
        rep.count(RULES[rule])
        if msg:
            rep.violation(rule, construct, f'{f.module.rel}:{getattr(node, "lineno", f.node.lineno)} {f.qual}', msg)
        else:
            rep.ok(f'{construct}: {k!r}' if rule in ('result', 'pair') else '')
            if unknown(k):
                rep.count('values of unknown kind')
    rep.count('functions', sum(1 for _ in ix.all_functions()))
    rep.floor('values that become results', 100)
    rep.floor('functions that must set the result', 3)
    rep.floor('pairs of children and result', 3)
    return c
