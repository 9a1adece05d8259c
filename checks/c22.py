"""C22: a cancel query that answers yes stops the processing; it reaches every stage and outlives no run."""
from __future__ import annotations
import ast
import os
import re
from typing import Dict, List, Optional, Set, Tuple

from sa.src import Index, Func, FUNC, dotted, unparse, AnalysisError
from sa.flow import Flow
from sa.stages import Driver, PipelineDriver, St, TOP, RELEVANT, Need, QUERY_ATTRS

EXPLANATION = (
    'Abstract execution (path-sensitive typestate analysis) of compile_source, run_pipeline, full_pipeline, '
    'Grammar.__call__, Compiler.__call__, Compiler.compile, cancel_proxy, trace_history and batch_process with and without a '
    'cancel query, polls answering yes or no at any time; which exceptions may pass which handlers (call graph); '
    'dataflow of the query from each function that receives one to each that takes one, code templates included.')
ASSUMPTIONS = ['compilers written by users visit children with self.compile() and do not catch CancelRequest themselves',
               'leaf parsers are called over and over as long as a document is being parsed']

PARAMS = ('cancel_query', 'cancel_func')
CANCEL_ATTRS = ('cancel_query', 'cancel_query__', 'cancel_query_last__')
MAXCALLS = 1000


class Base(Driver):
    """states stay small: values that are not known are not stored"""
    modules: Tuple[str, ...] = ()
    more = {'cancel_query_last__', 'set_proxy', '_parse_proxy', 'cancel_interval__', 'CANCEL_QUERY_INTERVAL',
            'all_parsers__'}

    def __init__(self, ix, bad, driver: Func):
        super().__init__(ix, bad)
        self.driver = driver
        self.called = 0

    def relevant(self, f):
        if super().relevant(f):
            return True
        k = ('more', id(f.node))
        if k not in self.rel:
            self.rel[k] = any(isinstance(n, ast.Attribute) and n.attr in self.more or
                              isinstance(n, ast.Name) and n.id in self.more for n in ast.walk(f.node))
        return self.rel[k]

    def on_store(self, t, st, flow, func):
        res = super().on_store(t, st, flow, func)
        if isinstance(t, ast.Name):
            out = []
            for s in res:
                k = ('v', self.home(t.id, flow, func), t.id)
                v = s.get(k)
                if v is not TOP and (v[0] == 'u' and not (isinstance(v[1], tuple) and v[1][0] == 'len')
                                     or v[0] == 'str' or v[0] == 'int' and v[2]) and not self.keep(t, v):
                    s = s.set(k, None)
                out.append(s)
            return out
        return res

    def keep(self, t, v) -> bool:
        return False

    def other_call(self, name, call, st, flow, func):
        if name == 'len' and len(call.args) == 1:
            return [(st, ('u', ('len', id(call))))]
        return [(st, TOP)]

    def call(self, call, st, flow, func):
        if isinstance(call.func, ast.Name) and call.func.id == 'len' and len(call.args) == 1:
            v = self.val(call.args[0], st, flow, func)
            if v is TOP or v[0] == 'u':
                return [(st, ('u', ('len', id(call))))]
        return super().call(call, st, flow, func)

    def assume(self, test, st, truth, flow, func):
        """a length that is known to be zero"""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, truth = test.operand, not truth
        x, zero = test, not truth
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            a, b = self.val(test.left, st, flow, func), self.val(test.comparators[0], st, flow, func)
            op = type(test.ops[0])
            x = test.left
            if a == ('int', 0, ''):
                a, b, x = b, a, test.comparators[0]
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
            if b == ('int', 0, ''):
                zero = truth if op in (ast.Eq, ast.LtE) else not truth if op in (ast.NotEq, ast.Gt) else False
            elif b == ('int', 1, ''):
                zero = truth if op is ast.Lt else not truth if op is ast.GtE else False
            else:
                zero = False
        if zero:
            v = self.val(x, st, flow, func)
            if v is not TOP and v[0] == 'u' and isinstance(v[1], tuple) and v[1][0] == 'len':
                return St({k: ('int', 0, '') if w == v else w for k, w in st.d.items()})
        return st

    def rng(self, v, st):
        if v is not TOP and v[0] == 'u' and isinstance(v[1], tuple) and v[1][0] == 'len':
            return (0, 10 ** 9)
        return super().rng(v, st)

    def compare(self, a, op, b, st):
        if isinstance(op, (ast.In, ast.NotIn)) and a is not TOP and b is not TOP and b[0] == 'tup' \
                and a[0] == 'str' and all(x is not TOP and x[0] == 'str' for x in b[1:]):
            return (a in b[1:]) != isinstance(op, ast.NotIn)
        return super().compare(a, op, b, st)

    def val(self, e, st, flow, func):
        if isinstance(e, ast.Set):
            return ('tup',) + tuple(self.val(x, st, flow, func) for x in e.elts)
        return super().val(e, st, flow, func)

    def attribute(self, e, st, flow, func):
        if e.attr in self.tracked:
            return st.get(('at', e.attr))
        return super().attribute(e, st, flow, func)

    def store_attr(self, t, st, v, flow, func):
        if t.attr in self.tracked:
            return st.set(('at', t.attr), v if v is not TOP else ('other',))
        return super().store_attr(t, st, v, flow, func)


# -- the parser ------------------------------------------------------------------------------------

class GrammarCall(Base):
    """one leaf parser stands for all; px: what its proxy is"""
    modules = ('parse',)
    tracked = ('cancel_query__', 'cancel_query_last__')
    opaque = {'has_errors', 'only_errors', 'cancel_proxy', 'Parser.set_proxy'}
    NAMES = {'parse': '_parse', 'cancel': 'cancel_proxy', 'trace': 'trace_history'}

    def subscript(self, e, base, st, flow, func):
        i = self.val(e.slice, st, flow, func)
        if i == ('startp',):
            return ('stage', 'parser')
        return TOP

    def attribute(self, e, st, flow, func):
        b = self.val(e.value, st, flow, func)
        if b == ('leaf',):
            if e.attr == '_parse_proxy':
                return ('proxy', st.get('px'))
            if e.attr == '_parse':
                return ('proxy', 'parse')
        if b is not TOP and b[0] == 'proxy':
            if e.attr == '__name__':
                return ('str', self.NAMES[b[1]])
            if e.attr == '__func__':
                return ('proxyf', b[1])
        if e.attr == 'all_parsers__':
            return ('parsers',)
        return super().attribute(e, st, flow, func)

    def compare(self, a, op, b, st):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and a is not TOP and b is not TOP:
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if a[0] == b[0] == 'proxy':
                # bound methods are equal, but never identical
                if isinstance(op, (ast.Is, ast.IsNot)):
                    return None
                return (a[1] == b[1]) != neg
            for x, y in ((a, b), (b, a)):
                if x[0] == 'proxyf' and y[0] == 'func':
                    return (self.funcs[y[1]].name == self.NAMES[x[1]]) != neg
        return super().compare(a, op, b, st)

    def truth(self, v, st):
        if v is not TOP and v[0] in ('leaf', 'proxy', 'parsers'):
            return True
        return super().truth(v, st)

    def isinstance_value(self, v, cls):
        if v is not TOP and v[0] == 'leaf' and cls in ('LeafParser', 'Parser'):
            return ('bool', True)
        if v is not TOP and v[0] == 'twig' and cls == 'LeafParser':
            return ('bool', False)
        return super().isinstance_value(v, cls)

    def iterated(self, e, st, flow, func):
        v = super().val(e, st, flow, func)
        if v is TOP and isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) and len(e.generators) == 1 \
                and isinstance(e.elt, ast.Name) and unparse(e.elt) == unparse(e.generators[0].target):
            return self.picked(e, st, flow, func)
        if isinstance(e, ast.Call) and dotted(e.func) in ('list', 'tuple', 'set', 'sorted', 'iter', 'filter') and e.args:
            return self.iterated(e.args[-1] if dotted(e.func) == 'filter' else e.args[0], st, flow, func)
        return v

    def picked(self, e, st, flow, func):
        """the parsers that a comprehension picks: is the leaf parser among them?"""
        g = e.generators[0]
        v = self.iterated(g.iter, st, flow, func)
        if v != ('parsers',) or not isinstance(g.target, ast.Name):
            return TOP
        st = st.set(('v', self.home(g.target.id, flow, func), g.target.id), ('leaf',))
        ts = [self.truth(self.val(c, st, flow, func), st) for c in g.ifs]
        return ('tup',) if False in ts else TOP if None in ts else v

    def may_skip(self, loop, st, flow, func):
        it = loop.iter if isinstance(loop, (ast.For, ast.AsyncFor)) else loop.generators[0].iter
        if self.iterated(it, st, flow, func) == ('parsers',):
            return False
        return super().may_skip(loop, st, flow, func)

    def stored_value(self, t, st, flow, func):
        s = t._stmt
        if isinstance(s, (ast.For, ast.comprehension)) and s.target is t and isinstance(t, ast.Name) \
                and self.iterated(s.iter, st, flow, func) == ('parsers',):
            return [(st, ('leaf',))]
        return super().stored_value(t, st, flow, func)

    def val(self, e, st, flow, func):
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            v = self.iterated(e, st, flow, func) if len(e.generators) == 1 and isinstance(e.elt, ast.Name) \
                and unparse(e.elt) == unparse(e.generators[0].target) else TOP
            if v is not TOP:
                return v
        if isinstance(e, ast.IfExp):
            t = self.truth(self.val(e.test, st, flow, func), st)
            if t is None:
                a, b = self.val(e.body, st, flow, func), self.val(e.orelse, st, flow, func)
                if ('stage', 'parser') in (a, b):
                    return ('stage', 'parser')
        return super().val(e, st, flow, func)

    def keep(self, t, v):
        return v[0] == 'str'

    def target(self, call, st, flow, func):
        f = super().target(call, st, flow, func)
        if f is not None and (f.name == 'set_proxy' or f.name == '__init__'):
            return None
        return f

    def call(self, call, st, flow, func):
        if isinstance(call.func, ast.Name) and call.func.id == 'isinstance' and len(call.args) == 2 \
                and self.val(call.args[0], st, flow, func) == ('startp',):
            return [(st, TOP)]
        name = call.func.attr if isinstance(call.func, ast.Attribute) else ''
        if name == '__getitem__' and call.args and self.val(call.args[0], st, flow, func) == ('startp',):
            return [(st, ('stage', 'parser'))]
        if name == 'set_proxy' and len(call.args) + len(call.keywords) == 1:
            b = self.val(call.func.value, st, flow, func)
            a = call.args[0] if call.args else call.keywords[0].value
            v = self.val(a, st, flow, func)
            if b == ('leaf',):
                if v == ('none',):
                    st = st.set('px', 'parse')
                elif v is not TOP and v[0] == 'func' and self.funcs[v[1]].name == 'cancel_proxy':
                    if st.get('px') == 'trace':
                        return []           # refused by set_proxy
                    st = st.set('px', 'cancel')
                elif v is not TOP and v[0] == 'proxy':
                    st = st.set('px', v[1])
                else:
                    raise AnalysisError(f'{func.where}: unknown proxy {unparse(a)}')
                return [(st, ('none',))]
        return super().call(call, st, flow, func)

    def stage(self, name, call, st, flow, func):
        self.called += 1
        q, px = st.get('q'), st.get('px')
        if st.get('C', 0) >= 1:
            self.bad('stage-after-cancellation', 'Grammar.__call__|parser', self.where(flow, call),
                     'Grammar.__call__ may call the parser again although parsing has been cancelled')
        if st.get(('at', 'cancel_query__')) != q:
            self.bad('query-lost', 'Grammar.__call__', self.where(flow, call),
                     'the attribute cancel_query__ may have been changed when the parser is called')
        if q[0] == 'query' and px == 'parse':
            self.bad('query-not-polled', 'Grammar.__call__', self.where(flow, call),
                     'Grammar.__call__ may call the parser without leaf parsers polling the cancel query '
                     f'(query of the last run: {"none" if st.get("last0") == ("none",) else "given"}, tracer: '
                     f'{"yes" if st.get("px0") == "trace" else "no"})')
        if q == ('none',) and px == 'cancel':
            self.bad('query-kept', 'Grammar.__call__', self.where(flow, call),
                     'Grammar.__call__ may call the parser while leaf parsers still poll the cancel query of an '
                     'earlier run')
        return [(st.set('ran', 1), TOP)]

    def raised(self, call, st, flow, func):
        try:
            fv = self.val(call.func, st, flow, func)
        except Need:
            return ()
        if fv is TOP or fv[0] != 'stage':
            return ()
        res = [st.set('ex', 'ParserError', 'ran', 1)]
        if st.get('q')[0] == 'query':
            res.append(st.set('ex', 'CancelError', 'C', max(1, st.get('C', 0)), 'ran', 1))
        return res

    def check(self):
        f = self.driver
        ps = f.params()
        n = 0
        for q in (('none',), ('query', 'q')):
            for last in (('none',), ('query', 'q'), ('query', 'old')):
                for px in ('parse', 'cancel', 'trace'):
                    if px == 'cancel' and last == ('none',):
                        continue
                    st = St({'W': 0, 'q': q, ('at', 'cancel_query__'): q, ('at', 'cancel_query_last__'): last,
                             'px': px, 'px0': px, 'last0': last, ('v', 1, ps[2]): ('startp',)})
                    o = Flow(self).run(f, [st])
                    for s in o.ret:
                        n += 1
                        if s.get('C', 0) == 1:
                            self.bad('cancellation-not-reported', 'Grammar.__call__', f.where,
                                     'Grammar.__call__ may return after cancellation without the error CANCELED')
                        if s.get('px') == 'cancel' and s.get(('at', 'cancel_query_last__')) in (TOP, ('none',)):
                            self.bad('query-kept', 'Grammar.__call__|last', f.where,
                                     'Grammar.__call__ may leave leaf parsers polling without remembering that: the '
                                     'next run will not reset them')
                    for s in o.exc:
                        n += 1
                        if s.get('C', 0) >= 1:
                            self.bad('cancellation-escapes', 'Grammar.__call__', f.where,
                                     'the exception that stops the parser may leave Grammar.__call__')
                        if s.get('ran') and s.get('px') == 'cancel' \
                                and s.get(('at', 'cancel_query_last__')) in (TOP, ('none',)):
                            self.bad('query-kept', 'Grammar.__call__|last', f.where,
                                     'Grammar.__call__ may leave leaf parsers polling without remembering that')
        if not self.called:
            raise AnalysisError('Grammar.__call__: no call of the parser has been recognised')
        return n


# -- the compiler ------------------------------------------------------------------------------------

class CompilerCall(Base):
    modules = ('compile',)
    tracked = ('cancel_query',)
    opaque = {'compile', 'finalize', 'prepare', 'visit_attributes'}

    def call(self, call, st, flow, func):
        fv = self.val(call.func, st, flow, func)
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) \
                and call.func.value.id == 'self' and call.func.attr in ('compile', 'finalize', 'prepare'):
            return self.stage(call.func.attr, call, st, flow, func)
        if isinstance(call.func, ast.Name) and fv is TOP and self.is_local(func, call.func.id):
            return self.stage('finalizer', call, st, flow, func)
        return super().call(call, st, flow, func)

    def stage_name(self, call, st, flow, func):
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) \
                and call.func.value.id == 'self' and call.func.attr in ('compile', 'finalize', 'prepare'):
            return call.func.attr
        if isinstance(call.func, ast.Name) and self.val(call.func, st, flow, func) is TOP \
                and self.is_local(func, call.func.id):
            return 'finalizer'
        return ''

    def stage(self, name, call, st, flow, func):
        self.called += 1
        if st.get('C', 0) >= 1:
            self.bad('stage-after-cancellation', f'Compiler.__call__|{name}', self.where(flow, call),
                     f'Compiler.__call__ may call the {name} although the compilation has been cancelled')
        if name == 'compile':
            st = st.set('ran', 1)
            if st.get(('at', 'cancel_query')) != st.get('q'):
                self.bad('query-lost' if st.get('q')[0] == 'query' else 'query-kept', 'Compiler.__call__',
                         self.where(flow, call),
                         'Compiler.__call__ may start the compilation without the cancel query that it was given '
                         'or that was assigned to it' if st.get('q')[0] == 'query' else
                         'Compiler.__call__ may start the compilation with a cancel query that nobody has given to it')
        return [(st, TOP)]

    def raised(self, call, st, flow, func):
        n = self.stage_name(call, st, flow, func)
        if not n:
            return ()
        res = [st.set('ex', 'Exception', *(('ran', 1) if n == 'compile' else ()))]
        if st.get('q')[0] == 'query' and n != 'prepare':
            res.append(st.set('ex', 'CancelRequest', 'C', 2, *(('ran', 1) if n == 'compile' else ())))
        return res

    def check(self):
        f = self.driver
        n = 0
        if 'cancel_query' not in f.all_params():
            raise AnalysisError('Compiler.__call__: parameter cancel_query has vanished')
        for attr in (('none',), ('query', 'a')):
            for par in (('none',), ('query', 'p')):
                q = par if par != ('none',) else attr
                o = Flow(self).run(f, [St({'W': 0, 'q': q, ('at', 'cancel_query'): attr,
                                           ('v', 1, 'cancel_query'): par})])
                for s in o.ret:
                    n += 1
                    if s.get('ran') and s.get(('at', 'cancel_query')) != ('none',):
                        self.bad('query-kept', 'Compiler.__call__|after', f.where,
                                 'Compiler.__call__ may return without having forgotten the cancel query: it would be '
                                 'polled in the next run')
                for s in o.exc:
                    n += 1
                    if s.get('C', 0) >= 1:
                        self.bad('cancellation-escapes', 'Compiler.__call__', f.where,
                                 'the exception that stops the compilation may leave Compiler.__call__')
                    if s.get('ran') and s.get(('at', 'cancel_query')) != ('none',):
                        self.bad('query-kept', 'Compiler.__call__|after', f.where,
                                 'Compiler.__call__ may be left by an exception without having forgotten the cancel '
                                 'query: it would be polled in the next run')
        if not self.called:
            raise AnalysisError('Compiler.__call__: no call of compile() has been recognised')
        return n


class CompileNode(Base):
    modules = ('compile',)
    tracked = ('cancel_query',)
    opaque = {'find_compilation_method', 'visit_attributes', 'fallback_compiler'}

    def call(self, call, st, flow, func):
        n = call.func.attr if isinstance(call.func, ast.Attribute) else \
            call.func.id if isinstance(call.func, ast.Name) else ''
        if n == 'find_compilation_method' or self.val(call.func, st, flow, func) == ('finder',):
            return [(st, ('stage', 'method'))]
        return super().call(call, st, flow, func)

    def val(self, e, st, flow, func):
        if isinstance(e, ast.IfExp):
            a, b = self.val(e.body, st, flow, func), self.val(e.orelse, st, flow, func)
            if a == b or b is TOP and a is not TOP and a[0] == 'stage':
                return a
            if a is TOP and b is not TOP and b[0] == 'stage':
                return b
        if isinstance(e, (ast.Attribute, ast.Name)) and (dotted(e) or '').split('.')[-1] == 'find_compilation_method':
            return ('finder',)
        if isinstance(e, ast.BoolOp) and any(self.val(x, st, flow, func) == ('finder',) for x in e.values):
            return ('finder',)
        return super().val(e, st, flow, func)

    def compare(self, a, op, b, st):
        if ('finder',) in (a, b):
            return None
        return super().compare(a, op, b, st)

    def stage(self, name, call, st, flow, func):
        self.called += 1
        if st.get('C', 0) >= 1:
            self.bad('stage-after-cancellation', 'Compiler.compile|method', self.where(flow, call),
                     'Compiler.compile may call the compilation method although the cancel query has answered yes')
        if st.get('q')[0] == 'query' and st.get('pol') is None:
            self.bad('query-not-polled', 'Compiler.compile', self.where(flow, call),
                     'Compiler.compile may call the compilation method without having polled the cancel query')
        return [(st, TOP)]

    def check(self):
        f = self.driver
        n = 0
        for q in (('none',), ('query', 'q')):
            o = Flow(self).run(f, [St({'W': 0, 'q': q, ('at', 'cancel_query'): q})])
            for s in o.ret:
                n += 1
                if s.get('C', 0) >= 1:
                    self.bad('cancellation-not-reported', 'Compiler.compile', f.where,
                             'Compiler.compile may go on after the cancel query has answered yes')
            for s in o.exc:
                n += 1
                if s.get('C', 0) == 1:
                    self.bad('cancellation-not-reported', 'Compiler.compile', f.where,
                             'Compiler.compile may stop without having added the error CANCELED')
                elif s.get('C', 0) == 2 and s.get('ex') != 'CancelRequest':
                    self.bad('cancellation-escapes', 'Compiler.compile', f.where,
                             f'Compiler.compile stops with {s.get("ex")} instead of CancelRequest')
        if not self.called:
            raise AnalysisError('Compiler.compile: no call of the compilation method has been recognised')
        return n


# -- polling in the parser ------------------------------------------------------------------------------

class Proxy(Base):
    """cancel_proxy: counts calls and polls"""
    modules = ('parse',)
    tracked = ('cancel_query__', 'cancel_interval__')
    arithmetic = True

    def binop(self, a, op, b, st):
        if a is not TOP and b is not TOP and a[0] == b[0] == 'int':
            if isinstance(op, ast.Mod) and b[1]:
                return ('int', a[1] % b[1], '')
            if isinstance(op, ast.Mult):
                return ('int', a[1] * b[1], '')
            if isinstance(op, ast.FloorDiv) and b[1]:
                return ('int', a[1] // b[1], '')
        return super().binop(a, op, b, st)

    def call(self, call, st, flow, func):
        if isinstance(call.func, ast.Attribute) and call.func.attr == '_parse':
            return self.stage('leaf', call, st, flow, func)
        return super().call(call, st, flow, func)

    def stage(self, name, call, st, flow, func):
        self.called += 1
        if st.get('C', 0) >= 1:
            self.bad('stage-after-cancellation', 'cancel_proxy', self.where(flow, call),
                     'cancel_proxy may call the parser although the cancel query has answered yes')
        return [(st, TOP)]

    def check(self):
        f = self.driver
        start = self.global_value(f.module, 'CANCEL_QUERY_INTERVAL')
        if start is TOP or start[0] != 'int':
            raise AnalysisError('CANCEL_QUERY_INTERVAL has vanished')
        n = 0
        todo = [(start[:2] + ('',), 0)]
        seen: Dict[object, int] = {}
        while todo:
            c, k = todo.pop()
            if seen.get(c, -1) >= k or len(seen) > 3 * MAXCALLS:
                continue
            seen[c] = k
            if k > MAXCALLS or c == ('other',):
                self.bad('query-not-polled', 'cancel_proxy', f.where,
                         f'cancel_proxy may let more than {MAXCALLS} calls of leaf parsers pass without polling the '
                         'cancel query')
                break
            q = ('query', 'q')
            o = Flow(self).run(f, [St({'W': 0, 'q': q, ('at', 'cancel_query__'): q, ('at', 'cancel_interval__'): c})])
            for s in o.ret:
                n += 1
                if s.get('C', 0) >= 1:
                    self.bad('cancellation-not-reported', 'cancel_proxy', f.where,
                             'cancel_proxy may go on after the cancel query has answered yes')
                c1 = s.get(('at', 'cancel_interval__'))
                c1 = c1[:2] + ('',) if c1 is not TOP and c1[0] == 'int' else ('other',)
                if s.get('pol'):
                    if seen.get(c1) is None:
                        todo.append((c1, 0))
                else:
                    todo.append((c1, k + 1))
            for s in o.exc:
                n += 1
                if s.get('C', 0) >= 1 and s.get('ex') != 'CancelError':
                    self.bad('cancellation-escapes', 'cancel_proxy', f.where,
                             f'cancel_proxy stops with {s.get("ex")} instead of CancelError')
        if not self.called:
            raise AnalysisError('cancel_proxy: no call of the parser has been recognised')
        return n


class Tracer(Base):
    modules = ('trace',)
    tracked = ('cancel_query__',)
    opaque = {'cancel_proxy'}

    def call(self, call, st, flow, func):
        d = (dotted(call.func) or '').split('.')[-1]
        v = self.val(call.func, st, flow, func)
        if v is not TOP and v[0] == 'func':
            d = self.funcs[v[1]].name
        if d in ('_parse', 'cancel_proxy') or v == ('direct',):
            q = st.get('q')
            self.called += 1
            if d != 'cancel_proxy' and q[0] == 'query':
                self.bad('query-not-polled', 'trace_history', self.where(flow, call),
                         'trace_history may call the parser without going through cancel_proxy although there is a '
                         'cancel query: the query is never polled while tracing')
            if d == 'cancel_proxy' and q == ('none',):
                self.bad('query-kept', 'trace_history', self.where(flow, call),
                         'trace_history may call cancel_proxy although there is no cancel query')
            return [(st, TOP)]
        return super().call(call, st, flow, func)

    def val(self, e, st, flow, func):
        if isinstance(e, ast.Attribute) and e.attr == '_parse':
            return ('direct',)
        return super().val(e, st, flow, func)

    def check(self):
        f = self.driver
        n = 0
        for q in (('none',), ('query', 'q')):
            o = Flow(self).run(f, [St({'W': 0, 'q': q, ('at', 'cancel_query__'): q})])
            n += len(o.ret) + len(o.exc)
        if not self.called:
            raise AnalysisError('trace_history: no call of the parser has been recognised')
        return n


# -- batches ------------------------------------------------------------------------------------------------

class Batch(Base):
    modules = ('dsl',)

    def val(self, e, st, flow, func):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and 'version_info' in unparse(e.left):
            return ('bool', isinstance(e.ops[0], (ast.Gt, ast.GtE)))
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)) and self.is_results(e, st, flow, func):
            return ('results',)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and isinstance(e.elt, ast.Call) \
                and self.is_submit(e.elt, st, flow, func):
            return ('futures',)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and self.val(e.elt, st, flow, func) == ('future',):
            return ('futures',)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and isinstance(e.elt, ast.Tuple):
            return self.tasks(e.elt, st, flow, func)
        return super().val(e, st, flow, func)

    def tasks(self, e, st, flow, func):
        vs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.val(x.value, st, flow, func)
                if v is TOP or v[0] != 'tup':
                    return TOP
                vs += v[1:]
            else:
                vs.append(self.val(x, st, flow, func))
        return ('tasks', len(vs), st.get('q') in vs)

    def is_results(self, e, st, flow, func):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'result'
                   for n in ast.walk(e.elt))

    def is_submit(self, call, st, flow, func):
        v = self.val(call.func, st, flow, func)
        return v == ('submit',) or isinstance(call.func, ast.Attribute) and call.func.attr == 'submit'

    def truth(self, v, st):
        if v is not TOP and v[0] in ('submit', 'factory'):
            return True
        return super().truth(v, st)

    def compare(self, a, op, b, st):
        if ('submit',) in (a, b) and ('none',) in (a, b):
            return isinstance(op, (ast.IsNot, ast.NotEq))
        return super().compare(a, op, b, st)

    def target(self, call, st, flow, func):
        f = self.callee(call, st, flow, func)
        if f is not None and f.name == 'never_cancel':
            return None
        if f is not None and f.outer is not None and not any(f.node is x.node for x in flow.stack) \
                and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)) \
                and any(isinstance(n, ast.Call) and self.is_submit(n, st, flow, func) for n in ast.walk(f.node)):
            return f
        for a in list(call.args) + [k.value for k in call.keywords]:
            try:
                v = self.val(a, st, flow, func)
            except Need:
                continue
            if f is not None and v in (('results',), ('futures',), ('pool',)) and not any(f is x or f.node is x.node
                                                                                         for x in flow.stack) \
                    and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                return f
        return super().target(call, st, flow, func)

    def keep(self, t, v):
        return False

    def call(self, call, st, flow, func):
        name = call.func.attr if isinstance(call.func, ast.Attribute) else \
            call.func.id if isinstance(call.func, ast.Name) else ''
        fv = self.val(call.func, st, flow, func)
        if name == 'map' and isinstance(call.func, ast.Attribute) and len(call.args) >= 2:
            self.submission(call.args[1], call, st, flow, func)
            if st.get('C', 0) >= 1:
                self.bad('stage-after-cancellation', 'batch_process|map', self.where(flow, call),
                         'batch_process may hand out files although the cancel query has answered yes')
            return [(st.set('sub', 'pool'), ('results',))]
        if name == 'map' and isinstance(call.func, ast.Name) and call.args and isinstance(call.args[0], ast.Lambda) \
                and isinstance(call.args[0].body, ast.Call) and self.is_submit(call.args[0].body, st, flow, func):
            r = self.call(call.args[0].body, st, flow, func)
            return [(x, ('futures',)) for x, _ in r]
        if self.is_submit(call, st, flow, func):
            self.submission(ast.Tuple(elts=list(call.args[1:]) + [k.value for k in call.keywords], ctx=ast.Load()),
                            call, st, flow, func)
            if st.get('C', 0) >= 1:
                self.bad('stage-after-cancellation', 'batch_process|submit', self.where(flow, call),
                         'batch_process may hand out files although the cancel query has answered yes')
            return [(st.set('sub', 'futures'), ('future',))]
        if name in ('zip', 'enumerate', 'iter') and any(
                self.val(a, st, flow, func) in (('results',), ('futures',)) for a in call.args):
            v = next(self.val(a, st, flow, func) for a in call.args
                     if self.val(a, st, flow, func) in (('results',), ('futures',)))
            return [(st, v)]
        if name == 'next' and call.args and self.val(call.args[0], st, flow, func) == ('results',):
            return [(self.taken(call, st, flow, func), TOP)]
        if name == 'result' and isinstance(call.func, ast.Attribute):
            if not any(isinstance(p, (ast.GeneratorExp,)) and any(x is call for x in ast.walk(p.elt))
                       for p in ast.walk(func.node) if isinstance(p, ast.GeneratorExp)):
                return [(self.taken(call, st, flow, func), TOP)]
        if name == 'shutdown':
            c = self.arg(call, None, 'cancel_futures')
            w = self.arg(call, 0, 'wait')
            if c is not None and self.truth(self.val(c, st, flow, func), st) is not False:
                st = st.set('cnl', 1)
            elif st.get('C', 0) >= 1 and st.get('sub') and not st.get('cnl') and not (
                    w is not None and self.truth(self.val(w, st, flow, func), st) is False):
                self.waits(call, st, flow)
            return [(st, TOP)]
        if name == 'cancel':
            return [(st.set('cnl', 1), TOP)]
        if name in ('done', 'running') and isinstance(call.func, ast.Attribute) and not call.args:
            return [(st, ('bool', False))]      # one future that has not been started stands for all
        if name == 'append' and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) \
                and len(call.args) == 1:
            a = call.args[0]
            w = self.val(a, st, flow, func)
            if isinstance(a, ast.Tuple):
                w = self.tasks(a, st, flow, func)
            if w is not TOP and w[0] in ('future', 'tasks'):
                return [(st.set(('v', self.home(call.func.value.id, flow, func), call.func.value.id),
                                ('futures',) if w[0] == 'future' else w), ('none',))]
        if name in ('list', 'tuple', 'reversed') and isinstance(call.func, ast.Name) and call.args:
            w = self.val(call.args[0], st, flow, func)
            if w is not TOP and w[0] in ('futures', 'tasks'):
                return [(st, w)]
        if name == 'wait':
            if st.get('C', 0) >= 1 and st.get('sub') and not st.get('cnl'):
                self.waits(call, st, flow)
            return [(st, TOP)]
        if fv is not TOP and fv[0] == 'func' and self.funcs[fv[1]].name == 'never_cancel':
            return [(st, ('bool', False))]
        return super().call(call, st, flow, func)

    def waits(self, call, st, flow):
        self.bad('stage-after-cancellation', 'batch_process|pending', self.where(flow, call),
                 'batch_process may wait for all files that have been handed out, although the cancel query has answered '
                 'yes, without cancelling those that have not been started')

    def submission(self, e, call, st, flow, func):
        self.called += 1
        elt = e.elt if isinstance(e, (ast.GeneratorExp, ast.ListComp)) else e
        v = self.tasks(elt, st, flow, func) if isinstance(elt, ast.Tuple) else self.val(e, st, flow, func)
        if v is not TOP and v[0] == 'tasks':
            self.subs.append((st.get('mode'), v[1], v[2], self.where(flow, call)))

    def taken(self, node, st, flow, func):
        if st.get('C', 0) >= 1:
            self.bad('stage-after-cancellation', 'batch_process|result', self.where(flow, node),
                     'batch_process may wait for the result of another file although the cancel query has answered yes')
        if st.get('q')[0] == 'query' and st.get('ran') and st.get('pol') is None:
            self.bad('query-not-polled', 'batch_process', self.where(flow, node),
                     'batch_process may wait for the result of another file without having polled the cancel query')
        return st.set('ran', 1, 'pol', None)

    def on_store(self, t, st, flow, func):
        s = t._stmt
        if isinstance(s, (ast.For, ast.comprehension)) \
                and next(n for n in ast.walk(s.target) if isinstance(n, (ast.Name, ast.Attribute))) is t:
            v = self.iterval(s.iter, st, flow, func)
            if v == ('results',):
                st = self.taken(s if isinstance(s, ast.For) else s.iter, st, flow, func)
        return super().on_store(t, st, flow, func)

    def iterval(self, e, st, flow, func):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('zip', 'enumerate', 'iter'):
            vs = [self.iterval(a, st, flow, func) for a in e.args]
            return next((v for v in vs if v in (('results',), ('futures',))), TOP)
        if isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] == 'as_completed':
            return ('futures',)
        return self.val(e, st, flow, func)

    def may_skip(self, loop, st, flow, func):
        it = loop.iter if isinstance(loop, (ast.For, ast.AsyncFor)) else loop.generators[0].iter
        if self.iterval(it, st, flow, func) == ('futures',):
            return False
        return super().may_skip(loop, st, flow, func)

    def may_raise(self, call, st, flow, func):
        return False

    def check(self):
        f = self.driver
        n = 0
        self.subs: List[Tuple] = []
        for q, alt in ((('none',), ('none',)), (('query', 'q'), ('none',)), (('query', 'q'), ('query', 'q'))):
            for mode in ('pool', 'futures'):
                d = {'W': 0, 'q': q, 'mode': mode,
                     ('v', 1, 'submit_func'): ('none',) if mode == 'pool' else ('submit',)}
                d[('v', 1, 'cancel_query')] = ('none',) if alt[0] == 'query' else q
                d[('v', 1, 'cancel_func')] = alt
                o = Flow(self).run(f, [St(d)])
                for s in o.ret:
                    n += 1
                    if s.get('C', 0) >= 1 and not s.get('cnl') and s.get('sub'):
                        self.bad('stage-after-cancellation', 'batch_process|pending', f.where,
                                 'batch_process may return after cancellation without having cancelled the files that '
                                 'have not been started')
                mine = [x for x in self.subs if x[0] == mode]
                self.subs = []
                for m, k, ok, where in mine:
                    if k >= 3 and not ok:
                        self.bad('query-lost', f'batch_process|{mode}', where,
                                 'batch_process may hand out files without the cancel query it was given')
                if q[0] == 'query' and not any(ok for _, _, ok, _ in mine):
                    self.bad('query-lost', f'batch_process|{mode}', f.where,
                             'batch_process never passes the cancel query on to the function that processes the files')
        if not self.called:
            raise AnalysisError('batch_process: no place where files are handed out has been recognised')
        return n


# -- the query is passed on -------------------------------------------------------------------------------------

def query_params(node) -> List[str]:
    a = node.args
    res = []
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        ann = unparse(x.annotation, 200) if x.annotation is not None else ''
        if x.arg in PARAMS or ann in ('CancelQuery', 'Optional[CancelQuery]'):
            res.append(x.arg)
    return res


def passed_on(node, callee_of, rep, where, qual):
    """every call in `node` of a function that takes a cancel query gets the query of `node`"""
    mine = query_params(node)
    if not mine:
        return
    alias = set(mine)
    while True:
        n0 = len(alias)
        for n in ast.walk(node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(
                    isinstance(x, ast.Name) and x.id in alias for x in ast.walk(n.value)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            alias.add(x.id)
            if isinstance(n, FUNC) and n is not node and any(isinstance(x, ast.Name) and x.id in alias
                                                             for x in ast.walk(n)):
                alias.add(n.name)
        if len(alias) == n0:
            break
    loads = [n for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in alias]
    if not loads:
        rep.violation('query-lost', f'{qual}|unused', where, f'{qual} takes a cancel query and never uses it')
        return
    for c in ast.walk(node):
        if not isinstance(c, ast.Call):
            continue
        for g, ps, offset in callee_of(c):
            takes = query_params(g)
            if not takes:
                continue
            rep.count('calls that take a cancel query')
            names = [x.arg for x in g.args.posonlyargs + g.args.args][offset:]
            got = []
            if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                rep.ok(f'{qual}: {unparse(c, 60)}')
                continue
            for nme, x in zip(names, c.args):
                if nme in takes:
                    got.append(x)
            got += [k.value for k in c.keywords if k.arg in takes]
            if any(isinstance(y, ast.Name) and y.id in alias for x in got for y in ast.walk(x)):
                rep.ok(f'{qual}: {unparse(c, 60)} is given the cancel query')
            else:
                rep.violation('query-lost', f'{qual}|{g.name}', f'{where.split(":")[0]}:{c.lineno} {qual}',
                              f'{qual} calls {g.name} without passing the cancel query on')


def forwarding(ix: Index, rep):
    by_name: Dict[str, List[Func]] = {}
    for f in ix.all_functions():
        if f.cls is None and f.outer is None:
            by_name.setdefault(f.name, []).append(f)

    for f in ix.all_functions():
        if f.outer is not None or not query_params(f.node):
            continue
        rep.count('functions that take a cancel query')
        nested = {n.name: n for n in ast.walk(f.node) if isinstance(n, FUNC) and n is not f.node}

        def callee_of(c, f=f, nested=nested):
            if isinstance(c.func, ast.Name):
                if c.func.id in nested:
                    return [(nested[c.func.id], None, 0)]
                g = ix.resolve_func(f.module, c.func.id)
                if g is not None:
                    return [(g.node, None, 0)]
            elif isinstance(c.func, ast.Attribute):
                if isinstance(c.func.value, ast.Name) and c.func.value.id == 'self' and f.cls is not None:
                    g = ix.lookup(f.cls, c.func.attr)
                    if g is not None:
                        return [(g.node, None, 0 if g.is_static else 1)]
                elif isinstance(c.func.value, ast.Name):
                    try:
                        m = ix.module(c.func.value.id)
                    except AnalysisError:
                        return []
                    g = ix.resolve_func(m, c.func.attr)
                    if g is not None:
                        return [(g.node, None, 0)]
            return []
        passed_on(f.node, callee_of, rep, f.where, f.qual)

    # code templates and the bundled example
    base = os.path.join(os.path.dirname(ix.module('dsl').path))
    for rel in ('templates/DSLParser.pyi', 'ts2python/ts2pythonParser.py'):
        p = os.path.join(base, rel)
        if not os.path.exists(p):
            continue
        with open(p, encoding='utf-8') as fh:
            src = fh.read()
        if p.endswith('.pyi'):
            src = re.sub(r'\{(\w+)\}', r'X\1', src)
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise AnalysisError(f'{rel}: {e}')
        local = {n.name: n for n in ast.walk(tree) if isinstance(n, FUNC)}
        for node in local.values():
            if not query_params(node):
                continue
            rep.count('functions that take a cancel query')

            def callee_of(c):
                if isinstance(c.func, ast.Name):
                    if c.func.id in local:
                        return [(local[c.func.id], None, 0)]
                    g = by_name.get(c.func.id, [])
                    return [(g[0].node, None, 0)] if len(g) == 1 else []
                if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                    try:
                        g = ix.resolve_func(ix.module(c.func.value.id), c.func.attr)
                    except AnalysisError:
                        return []
                    return [(g.node, None, 0)] if g is not None else []
                return []
            passed_on(node, callee_of, rep, f'DHParser/{rel}:{node.lineno} {node.name}', f'{rel}:{node.name}')


# -- the stopping exceptions are not swallowed -----------------------------------------------------------------------

def own_calls(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                yield n


class Raisers:
    """the functions that may be left by an exception of class tag"""

    def __init__(self, ix: Index, tag: str, modules, extra_attrs, is_unknown):
        self.ix, self.tag = ix, tag
        c = next((x for x in ix.all_classes() if x.name == tag), None)
        if c is None:
            raise AnalysisError(f'the class {tag} has vanished')
        self.names = set()
        import builtins
        for x in ix.mro(c):
            self.names.add(x.name)
            for b in x.bases:
                t = getattr(builtins, b.split('.')[-1], None)
                if isinstance(t, type):
                    self.names |= {y.__name__ for y in t.__mro__}
        self.names.discard('object')
        self.extra = extra_attrs
        self.is_unknown = is_unknown
        self.funcs = [f for f in ix.all_functions() if f.module.name in modules]
        self.set: Set[int] = set()
        self.busy: Set[int] = set()
        self.parents: Dict[int, Dict[int, ast.AST]] = {}
        while True:
            n = len(self.set)
            for f in self.funcs:
                if id(f.node) not in self.set and self.raises(f):
                    self.set.add(id(f.node))
            if len(self.set) == n:
                break

    def handler_catches(self, h) -> bool:
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return any((dotted(t) or '').split('.')[-1] in self.names for t in ts)

    def call_raises(self, c, f) -> bool:
        ix = self.ix
        fn = c.func
        if isinstance(fn, ast.Attribute):
            if fn.attr in self.extra:
                return True
            if isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') and f.cls is not None:
                g = ix.lookup(f.cls, fn.attr)
                if g is not None:
                    return id(g.node) in self.set or any(
                        id(s.methods[fn.attr].node) in self.set for s in ix.subclasses(f.cls, strict=True)
                        if fn.attr in s.methods)
            if isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super' and f.cls is not None:
                for k in ix.mro(f.cls)[1:]:
                    if fn.attr in k.methods:
                        return id(k.methods[fn.attr].node) in self.set
                return False
        elif isinstance(fn, ast.Name):
            g = ix.resolve_func(f.module, fn.id)
            if g is not None:
                return id(g.node) in self.set
            x = f
            while x is not None:
                for n in ast.walk(x.node):
                    if isinstance(n, FUNC) and n.name == fn.id:
                        if id(n) in self.busy:
                            return False
                        self.busy.add(id(n))
                        try:
                            return self.block(n.body, f)
                        finally:
                            self.busy.discard(id(n))
                x = x.outer
        return self.is_unknown(c, f)

    def raises(self, f) -> bool:
        return self.block(f.node.body, f)

    def block(self, stmts, f) -> bool:
        for s in stmts:
            if isinstance(s, FUNC + (ast.ClassDef,)):
                continue
            if isinstance(s, ast.Try):
                caught = any(self.handler_catches(h) for h in s.handlers)
                if not caught and self.block(s.body, f):
                    return True
                if caught and self.block(s.body, f) and any(
                        self.handler_catches(h) and self.reraises(h) for h in s.handlers):
                    return True
                if any(self.block(h.body, f) for h in s.handlers) or self.block(s.orelse, f) or self.block(s.finalbody, f):
                    return True
                continue
            if isinstance(s, ast.Raise) and s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                if (dotted(e) or '').split('.')[-1] == self.tag:
                    return True
            bodies = []
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(s, field, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    bodies.append(b)
            if bodies:
                heads = [x for x in ast.iter_child_nodes(s) if isinstance(x, ast.expr) or isinstance(x, ast.withitem)]
                if any(isinstance(n, ast.Call) and self.call_raises(n, f) for h in heads for n in ast.walk(h)):
                    return True
                if any(self.block(b, f) for b in bodies):
                    return True
                continue
            if any(self.call_raises(c, f) for c in own_calls([s])):
                return True
        return False

    @staticmethod
    def reraises(h) -> bool:
        return any(isinstance(x, ast.Raise) and (x.exc is None or isinstance(x.exc, ast.Name) and x.exc.id == h.name)
                   for x in h.body)

    def swallowers(self, allowed):
        """handlers that end the exception, apart from those of the functions in `allowed`"""
        for f in self.funcs:
            for s in ast.walk(f.node):
                if isinstance(s, ast.Try) and self.block(s.body, f):
                    for h in s.handlers:
                        # an earlier handler for exactly this exception that re-raises settles the matter
                        if self.handler_catches(h):
                            if not self.reraises(h) and not (f.qual in allowed or f.outer is not None
                                                             and f.outer.qual in allowed):
                                yield f, h, f'except {unparse(h.type) if h.type is not None else ""}'
                            break
                    for x in s.finalbody:
                        if any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for n in ast.walk(x)):
                            yield f, x, 'a jump out of the finally-clause'
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    for i in s.items:
                        c = i.context_expr
                        if isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] == 'suppress' \
                                and any((dotted(a) or '').split('.')[-1] in self.names for a in c.args) \
                                and self.block(s.body, f):
                            yield f, s, unparse(c)


def check(ix: Index, rep, tier):
    def bad2(aspect, rule, construct, where, msg):
        if aspect == 'cancel':
            rep.violation(rule, construct, where, msg)
    bad = rep.violation

    # -- stages of compilation and of the pipeline ------------------------------------------------
    for mod, name in (('compile', 'compile_source'), ('pipeline', 'run_pipeline'), ('pipeline', 'full_pipeline')):
        f = ix.func(mod, name)
        if 'cancel_query' not in f.all_params():
            rep.violation('query-lost', name, f.where, f'{name} does not take a cancel query any more')
            continue
        d = PipelineDriver(ix, bad2, f)
        n = d.check()
        if not d.stage_calls:
            raise AnalysisError(f'{name}: no call of a stage has been recognised')
        rep.count('polls in drivers', len(d.polls))
        rep.count('exit states', n)
        rep.ok(f'{name}: {n} exit states', n)

    # -- parser and compiler ------------------------------------------------------------------------
    for cls, mod, name in ((GrammarCall, 'parse', 'Grammar.__call__'), (CompilerCall, 'compile', 'Compiler.__call__'),
                           (CompileNode, 'compile', 'Compiler.compile'), (Proxy, 'parse', 'cancel_proxy'),
                           (Tracer, 'trace', 'trace_history'), (Batch, 'dsl', 'batch_process')):
        f = ix.func(mod, name)
        d = cls(ix, bad, f)
        n = d.check()
        rep.count('exit states', n)
        rep.ok(f'{name}: {n} exit states', max(1, n))

    # -- overriding methods of compilers of the package -------------------------------------------------
    comp = ix.cls('compile', 'Compiler')
    for c in ix.subclasses(comp, strict=True):
        for m in ('__call__', 'compile'):
            g = c.methods.get(m)
            if g is not None and not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                                         and n.func.attr == m for n in ast.walk(g.node)):
                rep.violation('query-not-polled', g.qual, g.where, f'{g.qual} replaces Compiler.{m}, which polls')

    # -- forwarding ---------------------------------------------------------------------------------------
    forwarding(ix, rep)
    rep.floor('functions that take a cancel query', 8)
    rep.floor('calls that take a cancel query', 6)

    # -- cancel_futures is passed on by wrappers of executors ------------------------------------------------
    for f in ix.all_functions():
        if f.name == 'shutdown' and 'cancel_futures' in f.all_params():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'shutdown':
                    rep.count('shutdown wrappers')
                    if any(isinstance(x, ast.Name) and x.id == 'cancel_futures' for k in n.keywords
                           for x in ast.walk(k.value)) or any(k.arg is None for k in n.keywords):
                        rep.ok(f'{f.qual} passes cancel_futures on')
                    else:
                        rep.violation('stage-after-cancellation', f.qual, f.where,
                                      f'{f.qual} does not pass cancel_futures on: pending files are still processed')

    # -- handlers -----------------------------------------------------------------------------------------------
    parser_cls = ix.cls('parse', 'Parser')

    def parser_call(c, f):
        """calls of parser objects (and of functions stored in parsers that might be parsers)"""
        fn = c.func
        if len(c.args) != 1 or c.keywords:
            return False
        if isinstance(fn, ast.Attribute):
            if fn.attr in ('_parse', '_parse_proxy', '__call__'):
                return True
            if isinstance(fn.value, ast.Name) and fn.value.id == 'self' and f.cls is not None \
                    and ix.is_subclass(f.cls, 'Parser') and ix.lookup(f.cls, fn.attr) is None:
                return not user_function(f.cls, fn.attr)
            return fn.attr == 'parser'
        if isinstance(fn, ast.Name) and f.cls is not None and ix.is_subclass(f.cls, 'Parser'):
            return fn.id in f.params() or any(
                isinstance(n, ast.Name) and n.id == fn.id and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node))
        return False

    def user_function(cls, attr):
        for k in ix.mro(cls):
            for m in k.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr:
                        a = unparse(n.annotation, 100)
                        return 'Parser' not in a.replace('CustomParseFunc', '')
        return False
    r = Raisers(ix, 'CancelError', ('parse', 'trace'), {'_parse_proxy'}, parser_call)
    if not any(id(m.node) in r.set for m in [ix.func('parse', 'Parser.__call__')]):
        rep.violation('cancellation-swallowed', 'Parser.__call__', ix.func('parse', 'Parser.__call__').where,
                      'the exception that stops the parser does not get past Parser.__call__')
    rep.count('functions the stopping exceptions pass through', len(r.set))
    for f, h, txt in r.swallowers({'Grammar.__call__'}):
        if f.cls is not None and f.cls.name == 'Grammar':
            continue
        rep.violation('cancellation-swallowed', f'{f.qual}', f'{f.module.rel}:{h.lineno} {f.qual}',
                      f'{f.qual} may swallow the exception that stops the parser ({txt})')
    r2 = Raisers(ix, 'CancelRequest', ('compile', 'ebnf', 'transform', 'pipeline'), set(), lambda c, f: False)
    if id(ix.func('compile', 'Compiler.compile').node) not in r2.set:
        rep.violation('cancellation-swallowed', 'Compiler.compile', ix.func('compile', 'Compiler.compile').where,
                      'Compiler.compile does not raise CancelRequest any more')
    rep.count('functions the stopping exceptions pass through', len(r2.set))
    for f, h, txt in r2.swallowers({'Compiler.__call__'}):
        if f.cls is not None and f.cls.name == 'Compiler' and f.name == '__call__':
            continue
        rep.violation('cancellation-swallowed', f'{f.qual}', f'{f.module.rel}:{h.lineno} {f.qual}',
                      f'{f.qual} may swallow the exception that stops the compilation ({txt})')
    rep.ok('handlers around calls that may be stopped', len(r.set) + len(r2.set))
    rep.floor('functions the stopping exceptions pass through', 30)

    # -- other writers of the query --------------------------------------------------------------------------------
    for f in ix.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in CANCEL_ATTRS:
                rep.count('writes of the cancel query')
                st = next((x for x in ast.walk(f.node) if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign))
                           and any(y is n for t in (x.targets if isinstance(x, ast.Assign) else [x.target])
                                   for y in ast.walk(t))), None)
                v = getattr(st, 'value', None)
                if f.name in ('__init__', '__call__') or f.name in ('compile_source', 'run_pipeline', 'set_cancel_query__'):
                    rep.ok(f'{f.qual}: {n.attr}')
                elif v is not None and any(isinstance(x, ast.Name) and x.id in query_params(f.node) for x in ast.walk(v)):
                    rep.ok(f'{f.qual}: {n.attr}')
                elif f.cls is not None and f.cls.name in ('Grammar', 'Compiler') and n.attr != 'cancel_query_last__' \
                        and isinstance(v, ast.Constant) and v.value is None:
                    rep.ok(f'{f.qual}: {n.attr} (followed from __call__)')
                elif f.cls is not None and f.cls.name == 'Grammar' and called_in(ix, f):
                    rep.ok(f'{f.qual}: {n.attr} (followed from __call__)')
                else:
                    rep.violation('query-kept', f'{f.qual}|{n.attr}', f'{f.module.rel}:{n.lineno} {f.qual}',
                                  f'{f.qual} sets {n.attr} to {unparse(v) if v is not None else "?"}')
    rep.floor('writes of the cancel query', 6)


def called_in(ix, f: Func) -> bool:
    """is f called from Grammar.__call__ (where it is followed) only?"""
    callers = {g.qual for g in ix.all_functions() for n in ast.walk(g.node)
               if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name}
    return bool(callers) and callers <= {'Grammar.__call__', 'Grammar.set_cancel_query__', 'Grammar._reset__'}
