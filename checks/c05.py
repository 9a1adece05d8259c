"""C05: captured variables follow the parse: what is discarded leaves no trace, and nothing that depends on
variables is memoised."""
from __future__ import annotations
import ast
from typing import Dict, List, Optional, Set, Tuple

from sa.src import Index, Func, FUNC, dotted, unparse, AnalysisError
from sa.flow import Flow
from sa.stages import St, TOP, Need
from checks.c22 import Base

EXPLANATION = (
    'Abstract execution (path-sensitive typestate analysis) of every __call__() of a parser class, of rollback_to__ '
    'and push_rollback__, and of the _parse() methods that touch variables. Guards are run with the location before, '
    'at and behind the last capture, memoization suspended or not, first visit or recursion, calls of other parsers '
    'that do or do not depend on variables, match or not, and parsing errors; _parse() methods with and without '
    'match, with and without progress; each rollback function is compared with the changes it is registered for.')
ASSUMPTIONS = ['a RecursionError ends the parse for practical purposes (the rest of the document is skipped)',
               'functions passed to Retrieve/Pop by users do not change the stack they receive']

VARS = ('variables__', 'rollback__', 'last_rb__loc__', 'suspend_memoization__')
ENTRY = ('parser', '_parse_proxy', '_parse')


class Common(Base):
    modules = ('parse',)
    tracked = ('suspend_memoization__',)
    more = set(VARS) | {'visited', 'recursion_counter', '_parse_proxy', 'parser', 'values', 'push_rollback__',
                        'rollback_to__', '_rollback_location', '_rollback'}
    opaque = {'has_errors', 'only_errors', '_handle_parsing_error', '_handle_recursion_error', '_return_value',
              '__repr__', 'symbol_pname', 'get_node_name', 'dsl_error'}
    primitives = {'push_rollback__', 'rollback_to__'}

    def __init__(self, ix, bad, driver: Func, cls):
        super().__init__(ix, bad, driver)
        self.cls = cls
        self.grammar = ix.cls('parse', 'Grammar')
        self.seen: Dict[str, int] = {}

    def note(self, k):
        self.seen[k] = self.seen.get(k, 0) + 1

    def callee(self, call, st, flow, func):
        try:
            v = self.val(call.func, st, flow, func)
        except Need:
            return None
        if v is not TOP and v[0] == 'func':
            return self.funcs[v[1]]
        if v is not TOP:
            return None
        if isinstance(call.func, ast.Attribute):
            x = call.func.value
            a = call.func.attr
            if a in self.primitives:
                return None
            if isinstance(x, ast.Name) and x.id in ('self', 'cls'):
                c = self.cls if func.cls is not None and (func.cls is self.cls or func.cls in self.ix.mro(self.cls)) \
                    else func.cls
                return self.ix.lookup(c, a) if c is not None else None
            if self.val(x, st, flow, func) == ('grammar',):
                return self.ix.lookup(self.grammar, a)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' \
                    and func.cls is not None:
                return self.ix.lookup_super(self.cls, func.cls, a)
            if isinstance(x, ast.Name):
                c = self.ix.find_class(func.module, x.id)
                if c is not None:
                    return self.ix.lookup(c, a)
        return None

    def args(self, callee, call):
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) \
                and call.args and isinstance(call.args[0], ast.Name) and call.args[0].id == 'self':
            # Class.method(self, ...)
            a = callee.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            res = dict(zip(names, call.args))
            res.update({k.arg: k.value for k in call.keywords if k.arg})
            return res
        return super().args(callee, call)

    def attribute(self, e, st, flow, func):
        if e.attr in ('_grammar', 'grammar'):
            return ('grammar',)
        if e.attr in self.tracked:
            return st.get(('at', e.attr))
        return super().attribute(e, st, flow, func)

    def truth(self, v, st):
        if v is not TOP and v[0] in ('grammar', 'loc', 'rbf'):
            return True if v[0] != 'loc' else None
        return super().truth(v, st)

    def keep(self, t, v):
        return v[0] == 'int'

    def may_raise(self, call, st, flow, func):
        return False

    def subst(self, st: St, f) -> St:
        """apply f to every value of a variable (elements of tuples included)"""
        def g(v):
            if isinstance(v, tuple) and v and v[0] == 'tup':
                return ('tup',) + tuple(g(x) if x is not TOP else x for x in v[1:])
            return f(v)
        d, change = {}, False
        for k, v in st.d.items():
            if isinstance(k, tuple) and k[0] in ('v', 'c') or k == 'ret':
                w = g(v)
                if w != v:
                    change = True
                d[k] = w
            else:
                d[k] = v
        return St(d) if change else st


# -- the guards ----------------------------------------------------------------------------------------

class Guard(Common):
    """__call__() of a parser class"""
    arithmetic = True

    def __init__(self, ix, bad, driver, cls, names: str, clean: bool):
        super().__init__(ix, bad, driver, cls)
        self.names = names
        self.clean = clean              # the parsers called do not touch variables
        self.label = driver.qual

    def attribute(self, e, st, flow, func):
        b = self.val(e.value, st, flow, func)
        if isinstance(e.value, ast.Name) and e.value.id == 'self' and e.attr in ENTRY:
            return ('parsefn', e.attr)
        if b is not TOP and b[0] == 'parsefn':
            return b if e.attr == '__call__' else TOP
        if e.attr == 'visited':
            return ('memo',)
        if e.attr == 'recursion_counter':
            return ('rc',)
        if e.attr == 'last_rb__loc__':
            return ('rb',)
        if e.attr == 'rollback__':
            return ('rbs',)
        return super().attribute(e, st, flow, func)

    def binop(self, a, op, b, st):
        v = super().binop(a, op, b, st)
        if v is not TOP and v[0] == 'int' and v[1] > 2:
            return ('int', 2, '')
        return v

    def subscript(self, e, base, st, flow, func):
        if base == ('memo',):
            self.check_memo_read(e, st, flow)
            return ('tup', ('memoized',), ('memoized',))
        if base == ('rc',):
            return st.get('cnt')
        if base == ('rbs',):
            i = self.val(e.slice, st, flow, func)
            if i is not TOP and i[0] == 'int' and i[1] == -1:
                return ('tup', ('toploc',), ('rbf', 'top'))
        return super().subscript(e, base, st, flow, func)

    def check_memo_read(self, node, st, flow):
        self.note('memo')
        if st.get('rel') in ('lt', 'eq'):
            self.bad('memo-before-rollback', self.label, self.where(flow, node),
                     f'{self.label} may return a memoised result without having rolled back the captures at or '
                     f'behind its location (location {"before" if st.get("rel") == "lt" else "equal to"} that of the '
                     'last capture)')

    def compare(self, a, op, b, st):
        if a is not TOP and b is not TOP:
            if isinstance(op, (ast.In, ast.NotIn)) and b == ('rc',):
                return (st.get('cnt') is not None) != isinstance(op, ast.NotIn)
            if {a, b} == {('loc',), ('rb',)}:
                r = st.get('rel')
                if r is None:
                    return None
                x = {'lt': -1, 'eq': 0, 'gt': 1}[r]
                if a == ('rb',):
                    x = -x
                return {ast.Lt: x < 0, ast.LtE: x <= 0, ast.Gt: x > 0, ast.GtE: x >= 0, ast.Eq: x == 0,
                        ast.NotEq: x != 0}.get(type(op))
            if a[0] == 'rn' and b == ('none',) or b[0] == 'rn' and a == ('none',):
                r = a if a[0] == 'rn' else b
                return r[2] == (isinstance(op, (ast.Is, ast.Eq)))
            if a[0] == b[0] == 'size':
                x = self.size_diff(a, b, st)
                if x is not None:
                    return {ast.Lt: x < 0, ast.LtE: x <= 0, ast.Gt: x > 0, ast.GtE: x >= 0, ast.Eq: x == 0,
                            ast.NotEq: x != 0}.get(type(op))
                return None
        if isinstance(op, (ast.In, ast.NotIn)) and b == ('memo',):
            if st.get('rel') in ('lt', 'eq') and not st.get('quiet'):
                self.memo_reads.append(st)
        return super().compare(a, op, b, st)

    memo_reads: List = []

    @staticmethod
    def size_diff(a, b, st):
        if a == b:
            return 0
        if {a[1], b[1]} == {'cur', 'prev'}:
            d = st.get('extra', 0)
            return d if a[1] == 'cur' else -d
        return None

    def truth(self, v, st):
        if v is not TOP:
            if v[0] == 'rn':
                return None if not v[2] else False
            if v[0] == 'rbs':
                k = st.get(('rbempty',))
                if k is None:
                    raise Need(('rbempty',), (0, 1))
                return not k
            if v[0] in ('parsefn', 'rc'):
                return True if v[0] == 'parsefn' else None
        return super().truth(v, st)

    def event(self, kind, node, st, flow, func):
        if kind == 'load' and isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Load):
            try:
                self.val(node, st, flow, func)
            except Need:
                pass
        if kind == 'del' and isinstance(node, ast.Subscript) and self.val(node.value, st, flow, func) == ('rc',):
            return (st.set('cnt', None),)
        return super().event(kind, node, st, flow, func)

    def on_store(self, t, st, flow, func):
        if isinstance(t, ast.Subscript):
            b = self.val(t.value, st, flow, func)
            if b == ('memo',):
                return (self.memo_write(t, st, flow),)
            if b == ('rc',):
                return [s.set('cnt', v if v is not TOP and v[0] == 'int' else ('int', 1, ''))
                        for s, v in self.stored_value(t, st, flow, func)]
            return (st,)
        return super().on_store(t, st, flow, func)

    def memo_write(self, node, st, flow):
        self.note('memo')
        if st.get('dep'):
            case = 'on' if not st.get('susp0') else 'suspended'
            self.bad('memoised-although-context-sensitive', f'{self.label} (memoization was {case})',
                     self.where(flow, node),
                     f'{self.label} may memoise a result that depends on captured variables (memoization was {case} '
                     'when it was called)')
        return st.set('memoised', 1)

    def store_attr(self, t, st, v, flow, func):
        if t.attr == 'last_rb__loc__':
            if v is not TOP and (v == ('toploc',) and st.get(('rbempty',)) == 0
                                 or v[0] == 'int' and v[1] < 0 and st.get(('rbempty',)) == 1):
                return st.set('unsync', None, 'rel', None)
            return st.set('unsync', 1, 'rel', None)
        return super().store_attr(t, st, v, flow, func)

    def call(self, call, st, flow, func):
        fv = self.val(call.func, st, flow, func)
        if fv is not TOP and fv[0] == 'parsefn':
            return self.inner(fv[1], call, st, flow, func)
        if fv is not TOP and fv[0] == 'rbf':
            if fv[1] == 'popped' and st.get('uncalled'):
                return [(st.set('uncalled', None), ('none',))]
            self.bad('rollback-twice', self.label, self.where(flow, call),
                     f'{self.label} may call a rollback function that has been called before or is still registered')
            return [(st, ('none',))]
        if isinstance(call.func, ast.Attribute):
            b = self.val(call.func.value, st, flow, func)
            a = call.func.attr
            if a == 'rollback_to__':
                x = call.args[0] if call.args else call.keywords[0].value if call.keywords else None
                self.note('rollback')
                if x is not None and self.val(x, st, flow, func) == ('loc',):
                    return [(st.set('rel', 'gt'), ('none',))]
                self.bad('rollback-elsewhere', self.label, self.where(flow, call),
                         f'{self.label} rolls back to {unparse(x) if x is not None else "?"} instead of its location')
                return [(st, ('none',))]
            if b == ('memo',):
                if a in ('get', 'pop', '__getitem__', '__contains__'):
                    self.check_memo_read(call, st, flow)
                    return [(st, ('tup', ('memoized',), ('memoized',))), (st, ('none',))] if a == 'get' else \
                        [(st, TOP)]
                if a in ('setdefault', '__setitem__', 'update'):
                    return [(self.memo_write(call, st, flow), TOP)]
            if b == ('rc',):
                if a == 'pop':
                    return [(st.set('cnt', None), st.get('cnt'))]
                if a == 'get':
                    v = st.get('cnt')
                    if v is None and len(call.args) > 1:
                        v = self.val(call.args[1], st, flow, func)
                    return [(st, v if v is not None else ('none',))]
                if a == '__contains__':
                    return [(st, ('bool', st.get('cnt') is not None))]
            if b == ('rbs',) and a == 'pop' and not call.args:
                if not st.get('extra'):
                    self.bad('accepted-captures-undone', self.label, self.where(flow, call),
                             f'{self.label} may undo captures that belong to the result it keeps')
                if st.get('uncalled'):
                    self.bad('rollback-not-called', self.label, self.where(flow, call),
                             f'{self.label} drops a rollback function without calling it')
                st = self.subst(st.set('unsync', 1, ('rbempty',), None, 'rel', None, 'uncalled', 1),
                                lambda v: TOP if v in (('toploc',), ('rbf', 'top'), ('rbf', 'popped'))
                                or v == ('size', 'cur') else v)
                r = ('tup', TOP, ('rbf', 'popped'))
                res = [(st.set('extra', None), r)]
                if st.get('extra'):
                    res.append((st, r))
                return res
        if isinstance(call.func, ast.Name) and call.func.id == 'len' and len(call.args) == 1 \
                and self.val(call.args[0], st, flow, func) == ('rbs',):
            return [(st, ('size', 'cur'))]
        return super().call(call, st, flow, func)

    def age(self, st):
        def f(v):
            if v is TOP:
                return v
            if v[0] in ('rn', 'rl') and v[1] == 'last':
                return (v[0], 'old') + v[2:]
            if v[0] == 'size':
                return ('size', 'prev' if v[1] == 'cur' else 'stale')
            if v == ('toploc',) or v[0] == 'rbf':
                return ('u', 'stale')
            return v
        return self.subst(st, f).set(('rbempty',), None)

    def inner(self, kind, call, st, flow, func):
        self.called += 1
        self.note('inner')
        x = call.args[0] if call.args else call.keywords[0].value if call.keywords else None
        here = x is not None and self.val(x, st, flow, func) == ('loc',)
        if not here:
            # a memo hit is reported to the history
            self.check_memo_read(call, st, flow)
            return [(st, ('tup', ('memoized',), ('memoized',)))]
        if kind != 'parser' and st.get('rel') in ('lt', 'eq'):
            self.bad('parsed-before-rollback', self.label, self.where(flow, call),
                     f'{self.label} may parse without having rolled back the captures at or behind its location '
                     f'(location {"before" if st.get("rel") == "lt" else "equal to"} that of the last capture)')
        st = self.age(st).set('rel', None if kind == 'parser' else st.get('rel'), 'extra', None)
        res = []
        for none in (False, True):
            r = ('tup', ('rn', 'last', none), ('rl', 'last'))
            res.append((st, r))
            if not self.clean:
                s = st.set('dep', 1, ('at', 'suspend_memoization__'), ('bool', True))
                # another attempt at the same location undoes what the last one has captured
                lost = s.set('lost', 1) if st.get('dep') else s
                res.append((lost, r))
                res.append((lost.set('extra', 1), r))
                if lost is not s:
                    res.append((s, r))
        return res

    def may_raise(self, call, st, flow, func):
        return True

    def raised(self, call, st, flow, func):
        try:
            fv = self.val(call.func, st, flow, func)
        except Need:
            return ()
        inner = fv is not TOP and fv[0] == 'parsefn'
        if not inner and not (isinstance(call.func, ast.Attribute) and call.func.attr == '_handle_parsing_error'):
            return ()
        st = st.set('ex', 'ParserError')
        if inner:
            st = st.set('dep', None)        # what matters is the attempt that failed
        res = [st]
        if inner and not self.clean:
            res.append(self.age(st).set('dep', 1, ('at', 'suspend_memoization__'), ('bool', True), 'rel', None))
        return res

    def leave(self, st, kind):
        f = self.driver
        susp = st.get(('at', 'suspend_memoization__'))
        how = 'returns' if kind == 'return' else 'is left by a parsing error'
        case = 'suspended' if st.get('susp0') else 'on'
        if (st.get('dep') or st.get('susp0')) and susp != ('bool', True):
            self.bad('suspension-lost', f'{self.label} (memoization was {case})' + ('' if kind == 'return' else '|error'),
                     f.where, f'{self.label} {how} with memoization turned on, although '
                     + ('memoization had been suspended when it was called' if st.get('susp0') else
                        'its result depends on captured variables'))
        if st.get('uncalled'):
            self.bad('rollback-not-called', self.label, f.where,
                     f'{self.label} drops a rollback function without calling it')
        if st.get('unsync'):
            self.bad('last-location-not-updated', self.label, f.where,
                     f'{self.label} removes rollback functions without adjusting last_rb__loc__')
        cnt0, cnt = st.get('cnt0'), st.get('cnt')
        if cnt0 is not None and cnt != cnt0:
            self.bad('recursion-depth-lost', f'{self.label}' + ('' if kind == 'return' else '|error'), f.where,
                     f'{self.label} {how} without restoring the recursion depth of its location')
        if kind == 'return':
            r = st.get('ret')
            node = r[1] if r is not TOP and r[0] == 'tup' and len(r) > 1 else TOP
            if node is not TOP and node[0] == 'rn' and node[1] == 'old' and st.get('extra'):
                self.bad('discarded-captures-kept', self.label, f.where,
                         f'{self.label} may return the result of an earlier attempt and keep what a later one has '
                         'captured')
            if node is not TOP and node[0] == 'rn' and node[1] == 'old' and st.get('lost'):
                self.bad('accepted-captures-lost', self.label, f.where,
                         f'{self.label} may return the result of an earlier attempt, the captures of which a later '
                         'attempt has undone')
            if cnt0 is None and cnt is not None and cnt[1] == 0 and not st.get('memoised'):
                self.bad('attempt-blocked', self.label, f.where,
                         f'{self.label} may return without a memoised result and with the mark that makes further '
                         'attempts at this location fail')
        elif cnt0 is None and cnt is not None:
            self.bad('attempt-blocked', f'{self.label}|error', f.where,
                     f'{self.label} may be left by a parsing error with the mark that turns further attempts at this '
                     'location into recursions')

    def check(self):
        f = self.driver
        ps = f.params()
        if len(ps) < 2:
            raise AnalysisError(f'{f.qual}: no parameter for the location')
        loc = [p for p in ps if p not in ('self',)][0]
        n = 0
        for rel in ('lt', 'eq', 'gt'):
            for susp in (False, True):
                for cnt in (None, ('int', 0, ''), ('int', 1, '')):
                    st = St({'W': 0, 'rel': rel, 'susp0': susp, ('at', 'suspend_memoization__'): ('bool', susp),
                             ('v', 1, loc): ('loc',)})
                    st = st.set('cnt', cnt, 'cnt0', cnt)
                    self.memo_reads = []
                    o = Flow(self).run(f, [st])
                    for s in self.memo_reads[:1]:
                        self.bad('memo-before-rollback', self.label, f.where,
                                 f'{self.label} may return a memoised result without having rolled back the captures '
                                 'at or behind its location (location '
                                 f'{"before" if s.get("rel") == "lt" else "equal to"} that of the last capture)')
                    for s in o.ret:
                        n += 1
                        self.leave(s, 'return')
                    for s in o.exc:
                        n += 1
                        self.leave(s, 'error')
        if not self.called:
            raise AnalysisError(f'{f.qual}: no call of a parser has been recognised')
        return n


# -- the stack of rollback functions -------------------------------------------------------------------

class Rollback(Common):
    """rollback_to__(location)"""

    def attribute(self, e, st, flow, func):
        if e.attr == 'rollback__':
            return ('rbs',)
        return super().attribute(e, st, flow, func)

    def top(self, st):
        return st.get('top')

    def subscript(self, e, base, st, flow, func):
        if base == ('rbs',):
            i = self.val(e.slice, st, flow, func)
            if i is not TOP and i[0] == 'int' and i[1] == -1 and st.get('top') != 'empty':
                return ('tup', ('toploc', st.get('top'), 'cur'), ('rbf', 'cur'))
        return super().subscript(e, base, st, flow, func)

    def truth(self, v, st):
        if v == ('rbs',):
            return st.get('top') != 'empty'
        return super().truth(v, st)

    def rng(self, v, st):
        if v == ('nrbs',):
            return (0, 0) if st.get('top') == 'empty' else (1, 10 ** 9)
        return super().rng(v, st)

    def compare(self, a, op, b, st):
        if a is not TOP and b is not TOP and {a[0], b[0]} == {'loc', 'toploc'}:
            t = a if a[0] == 'toploc' else b
            x = {'lt': -1, 'eq': 0, 'gt': 1}[t[1]]      # entry compared to the location
            if a[0] == 'loc':
                x = -x
            return {ast.Lt: x < 0, ast.LtE: x <= 0, ast.Gt: x > 0, ast.GtE: x >= 0, ast.Eq: x == 0,
                    ast.NotEq: x != 0}.get(type(op))
        return super().compare(a, op, b, st)

    def call(self, call, st, flow, func):
        fv = self.val(call.func, st, flow, func)
        if fv is not TOP and fv[0] == 'rbf':
            self.note('calls')
            if fv[1] == 'cur' and not st.get('topcalled'):
                return [(st.set('topcalled', 1), ('none',))]
            if fv[1] == 'old' and st.get('uncalled'):
                return [(st.set('uncalled', None), ('none',))]
            self.bad('rollback-twice', self.driver.qual, self.where(flow, call),
                     f'{self.driver.qual} may call the same rollback function twice')
            return [(st, ('none',))]
        if isinstance(call.func, ast.Name) and call.func.id == 'len' and len(call.args) == 1 \
                and self.val(call.args[0], st, flow, func) == ('rbs',):
            return [(st, ('nrbs',))]
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'pop' \
                and self.val(call.func.value, st, flow, func) == ('rbs',):
            i = self.val(call.args[0], st, flow, func) if call.args else ('int', -1, '')
            if i is TOP or i[:2] != ('int', -1):
                self.bad('wrong-order', self.driver.qual, self.where(flow, call),
                         f'{self.driver.qual} does not take the rollback functions from the end of the list')
                return [(st, TOP)]
            self.called += 1
            top = st.get('top')
            if top == 'empty':
                return []           # IndexError
            if top == 'lt':
                self.bad('undone-too-much', self.driver.qual, self.where(flow, call),
                         f'{self.driver.qual} may undo captures that lie before the location')
            if st.get('uncalled'):
                self.bad('rollback-not-called', self.driver.qual, self.where(flow, call),
                         f'{self.driver.qual} drops a rollback function without calling it')
            st = self.subst(st, lambda v: v[:-1] + ('old',) if v is not TOP and v[0] in ('toploc', 'rbf') else v)
            st = st.set('uncalled', None if st.get('topcalled') else 1, 'topcalled', None, 'sync', None)
            r = ('tup', ('toploc', top, 'old'), ('rbf', 'old'))
            return [(st.set('top', t), r) for t in ('empty', 'lt', 'eq', 'gt')]
        return super().call(call, st, flow, func)

    def store_attr(self, t, st, v, flow, func):
        if t.attr == 'last_rb__loc__':
            ok = v is not TOP and (v[0] == 'toploc' and v[2] == 'cur' or
                                   v[0] == 'int' and v[1] < 0 and st.get('top') == 'empty')
            return st.set('sync', 1 if ok else None)
        return super().store_attr(t, st, v, flow, func)

    def event(self, kind, node, st, flow, func):
        if kind == 'del' and isinstance(node, ast.Subscript) and self.val(node.value, st, flow, func) == ('rbs',):
            raise AnalysisError(f'{func.where}: deletion from the list of rollback functions is not understood')
        return super().event(kind, node, st, flow, func)

    def check(self):
        f = self.driver
        q = f.qual
        n = 0
        for top in ('empty', 'lt', 'eq', 'gt'):
            st = St({'W': 0, 'top': top, 'sync': 1, ('v', 1, f.params()[1]): ('loc',)})
            o = Flow(self).run(f, [st])
            for s in o.ret:
                n += 1
                if s.get('top') in ('eq', 'gt'):
                    self.bad('not-undone', q, f.where,
                             f'{q} may return although a capture at or behind the location has not been undone '
                             f'({s.get("top")})')
                if s.get('uncalled'):
                    self.bad('rollback-not-called', q, f.where, f'{q} drops a rollback function without calling it')
                if s.get('topcalled'):
                    self.bad('rollback-twice', q, f.where,
                             f'{q} calls a rollback function that stays in the list and will be called again')
                if not s.get('sync'):
                    self.bad('last-location-not-updated', q, f.where,
                             f'{q} may return with last_rb__loc__ not being the location of the last capture')
        if not n:
            raise AnalysisError(f'{q}: no exit reached')
        return n


class Push(Common):
    """push_rollback__(location, func)"""

    def attribute(self, e, st, flow, func):
        if e.attr == 'rollback__':
            return ('rbs',)
        return super().attribute(e, st, flow, func)

    def call(self, call, st, flow, func):
        if isinstance(call.func, ast.Attribute) and self.val(call.func.value, st, flow, func) == ('rbs',):
            x = self.val(call.args[0], st, flow, func) if call.args else TOP
            if call.func.attr == 'append' and x == ('tup', ('loc',), ('rbf', 'cur')):
                return [(st.set('pushed', st.get('pushed', 0) + 1), ('none',))]
            return [(st.set('pushed', 2), ('none',))]
        return super().call(call, st, flow, func)

    def on_store(self, t, st, flow, func):
        if isinstance(t, ast.Attribute) and t.attr == 'rollback__' and isinstance(t._stmt, ast.AugAssign):
            v = self.val(t._stmt.value, st, flow, func)
            return (st.set('pushed', 1 if v == ('tup', ('tup', ('loc',), ('rbf', 'cur'))) else 2),)
        return super().on_store(t, st, flow, func)

    def store_attr(self, t, st, v, flow, func):
        if t.attr == 'last_rb__loc__':
            return st.set('last', 1 if v == ('loc',) else None)
        return super().store_attr(t, st, v, flow, func)

    def check(self):
        f = self.driver
        q = f.qual
        ps = f.params()
        n = 0
        for susp in (False, True):
            st = St({'W': 0, ('v', 1, ps[1]): ('loc',), ('v', 1, ps[2]): ('rbf', 'cur'),
                     ('at', 'suspend_memoization__'): ('bool', susp)})
            for s in Flow(self).run(f, [st]).ret:
                n += 1
                if s.get('pushed') != 1:
                    self.bad('rollback-not-registered', q, f.where,
                             f'{q} may return without the rollback function at the end of the list')
                if not s.get('last'):
                    self.bad('last-location-not-updated', q, f.where,
                             f'{q} may return with last_rb__loc__ not being the location of the capture')
                if s.get(('at', 'suspend_memoization__')) != ('bool', True):
                    self.bad('suspension-lost', q, f.where, f'{q} may return without suspending memoization')
        return n


# -- parsers that capture and retrieve ---------------------------------------------------------------------

INVERSE = {'append': 'pop', 'pop': 'append'}


class VarParse(Common):
    """_parse() of a parser class that touches variables; loc = ('at', base, offset)"""

    def __init__(self, ix, bad, driver, cls, stored):
        super().__init__(ix, bad, driver, cls)
        self.q = f'{cls.name}._parse'
        self.stored = stored            # attributes that hold values taken from the stack
        self.summaries: Dict[int, object] = {}

    def relevant(self, f):
        return f.cls is not None and f.cls in self.ix.mro(self.cls) or super().relevant(f)

    def target(self, call, st, flow, func):
        v = self.val(call.func, st, flow, func)
        if v is not TOP and v[0] == 'rollbackfn':
            return None
        f = self.callee(call, st, flow, func)
        if f is not None and f.name == '__call__':
            return None
        return super().target(call, st, flow, func)

    def attribute(self, e, st, flow, func):
        if isinstance(e.value, ast.Name) and e.value.id == 'self':
            if e.attr == 'parser':
                return ('parsefn', 'parser')
            if e.attr in self.stored:
                return ('stack', 'kept')
            f = self.ix.lookup(self.cls, e.attr)
            if f is not None and not f.is_property and e.attr not in ('__class__',):
                self.funcs[id(f.node)] = f
                return ('func', id(f.node))
        if e.attr == 'variables__':
            return ('vars',)
        return super().attribute(e, st, flow, func)

    def subscript(self, e, base, st, flow, func):
        if base == ('vars',):
            return ('stack', 'var')
        if base is not TOP and base[0] == 'stack':
            return ('read',)
        return super().subscript(e, base, st, flow, func)

    def truth(self, v, st):
        if v is not TOP and v[0] == 'rn':
            return False if v[1] else None
        return super().truth(v, st)

    def binop(self, a, op, b, st):
        if a is not TOP and a[0] == 'pos':
            if b is not TOP and b[0] == 'int' and isinstance(op, (ast.Add, ast.Sub)):
                return ('pos', a[1], a[2] + (b[1] if isinstance(op, ast.Add) else -b[1]))
            if isinstance(op, ast.Add) and a == ('pos', 'start', 0):
                return ('pos', 'end', 0)
        return super().binop(a, op, b, st)

    def compare(self, a, op, b, st):
        if a is not TOP and b is not TOP:
            if a[0] == b[0] == 'pos':
                d = a[2] - b[2]
                if a[1] != b[1]:
                    if d:
                        return None
                    adv = st.get(('adv',))
                    if adv is None:
                        raise Need(('adv',), (0, 1))
                    d = adv if a[1] == 'end' else -adv
                return {ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0, ast.Eq: d == 0,
                        ast.NotEq: d != 0}.get(type(op))
            if a[0] == 'rn' and b == ('none',) or b[0] == 'rn' and a == ('none',):
                r = a if a[0] == 'rn' else b
                return r[1] == (isinstance(op, (ast.Is, ast.Eq)))
        return super().compare(a, op, b, st)

    def event(self, kind, node, st, flow, func):
        if kind == 'load' and isinstance(node, ast.Attribute) and node.attr == 'variables__':
            st = st.set('read', 1)
        if kind == 'store' and isinstance(node, ast.Subscript):
            b = self.val(node.value, st, flow, func)
            if b is not TOP and b[0] in ('vars', 'stack'):
                return (self.op(st, ('set', b)),)
        if kind == 'del' and isinstance(node, ast.Subscript):
            b = self.val(node.value, st, flow, func)
            if b is not TOP and b[0] == 'stack' and self.val(node.slice, st, flow, func)[:2] == ('int', -1):
                return (self.op(st, ('pop', b[1], None)),)
            if b is not TOP and b[0] in ('vars', 'stack'):
                return (self.op(st, ('set', b)),)
        return super().event(kind, node, st, flow, func)

    def stored_value(self, t, st, flow, func):
        return super().stored_value(t, st, flow, func)

    @staticmethod
    def op(st, o):
        ops = st.get('ops', ())
        if len(ops) > 6:
            return st
        return st.set('ops', ops + (o,))

    def call(self, call, st, flow, func):
        fv = self.val(call.func, st, flow, func)
        if fv is not TOP and fv[0] == 'parsefn':
            self.called += 1
            # what the called parser does to variables is its own business
            return [(st.set(('adv',), None), ('tup', ('rn', True), ('pos', 'start', 0))),
                    (st.set(('adv',), 0), ('tup', ('rn', False), ('pos', 'end', 0))),
                    (st.set(('adv',), 1), ('tup', ('rn', False), ('pos', 'end', 0)))]
        name = call.func.attr if isinstance(call.func, ast.Attribute) else \
            call.func.id if isinstance(call.func, ast.Name) else ''
        if isinstance(call.func, ast.Attribute):
            b = self.val(call.func.value, st, flow, func)
            if name == 'push_rollback__':
                return self.push(call, st, flow, func)
            if b == ('vars',) and name in ('get', 'setdefault', '__getitem__'):
                return [(st, ('stack', 'var'))]
            if b is not TOP and b[0] == 'stack':
                if name == 'append' and len(call.args) == 1:
                    v = self.val(call.args[0], st, flow, func)
                    src = v[1] if v is not TOP and v[0] == 'taken' else None
                    return [(self.op(st, ('append', b[1], src)), ('none',))]
                if name == 'pop':
                    i = self.val(call.args[0], st, flow, func) if call.args else ('int', -1, '')
                    if i is TOP or i[:2] != ('int', -1):
                        return [(self.op(st, ('set', b)), TOP)]
                    return [(self.op(st, ('pop', b[1], None)), ('taken', b[1]))]
                if name in ('clear', 'extend', 'insert', 'remove', 'reverse', 'sort'):
                    return [(self.op(st, ('set', b)), TOP)]
            if b == ('vars',) and name in ('clear', 'pop', 'update', 'popitem'):
                return [(self.op(st, ('set', b)), TOP)]
        if name == 'Node' and isinstance(call.func, ast.Name):
            return [(st, ('rn', False))]
        if name == 'dsl_error':
            return [(st.set('failed', 1), ('none',))]
        if name == '_return_value':
            return [(st, ('rn', False))]
        if name == 'with_pos' and isinstance(call.func, ast.Attribute):
            return [(st, self.val(call.func.value, st, flow, func))]
        return super().call(call, st, flow, func)

    def push(self, call, st, flow, func):
        self.note('push')
        l = self.arg(call, 0, 'location')
        fn = self.arg(call, 1, 'func')
        res = []
        for s, lv in self.evals(l, st, flow, func) if l is not None else [(st, TOP)]:
            fv = self.val(fn, s, flow, func) if fn is not None else TOP
            if fv is TOP or fv[0] != 'func':
                self.bad('rollback-not-understood', self.q, self.where(flow, call),
                         f'{self.q} registers a rollback function that cannot be followed: '
                         f'{unparse(fn) if fn is not None else "?"}')
                inv = ()
            else:
                inv = self.summary(self.funcs[fv[1]])
            res.append((s.set('push', s.get('push', ()) + ((lv, inv, getattr(call, 'lineno', 0)),)), ('none',)))
        return res

    def summary(self, f: Func) -> Tuple:
        """the changes a rollback function makes"""
        k = id(f.node)
        if k not in self.summaries:
            outs = Flow(self).run(f, [St({'W': 0})])
            sums = {s.get('ops', ()) for s in outs.ret}
            if len(sums) != 1:
                self.bad('rollback-varies', f'{self.q}|{f.name}', f.where,
                         f'the rollback function {f.qual} does not always undo the same changes')
                sums = {()}
            self.summaries[k] = next(iter(sums))
        return self.summaries[k]

    def leave(self, st):
        f = self.driver
        r = st.get('ret')
        ops = st.get('ops', ())
        pushes = st.get('push', ())
        node = r[1] if r is not TOP and r[0] == 'tup' and len(r) == 3 else TOP
        end = r[2] if r is not TOP and r[0] == 'tup' and len(r) == 3 else TOP
        nomatch = node == ('none',) or node is not TOP and node[0] == 'rn' and node[1]
        # what is undone, in the order in which it would be undone
        undo = tuple(o for p in reversed(pushes) for o in p[1])
        want = tuple((INVERSE.get(o[0], '?'), o[1]) for o in reversed(ops))
        if tuple(o[:2] for o in undo) != want:
            self.bad('not-undone', self.q, f.where,
                     f'{self.q} changes variables ({self.text(ops)}), but what it registers for rollback does not '
                     f'restore them ({self.text(undo)})')
        else:
            for i, o in enumerate(undo):
                if o[0] == 'append' and o[2] != ('kept' if o[1] == 'var' else 'var'):
                    self.bad('not-undone', f'{self.q}|value', f.where,
                             f'{self.q}: the rollback function puts back something else than what has been taken')
            for o in ops:
                if o[0] == 'append' and o[1] == 'kept' and o[2] != 'var':
                    self.bad('not-undone', f'{self.q}|value', f.where,
                             f'{self.q} keeps something else for the rollback than what it takes from the stack')
        if nomatch and ops:
            self.bad('changed-without-match', self.q, f.where,
                     f'{self.q} may change variables ({self.text(ops)}) without a match')
        if st.get('read') and not pushes:
            self.bad('not-suspended', self.q, f.where,
                     f'{self.q} may return without push_rollback__() although its result depends on variables: the '
                     'result of the calling parser will be memoised')
        for lv, inv, line in pushes:
            self.location(st, lv, inv, end, nomatch, line)
        return ops

    @staticmethod
    def text(ops):
        return ', '.join(f'{o[0]}({o[1]})' if o[0] in INVERSE else 'other change' for o in ops) or 'nothing'

    def location(self, st, lv, inv, end, nomatch, line):
        f = self.driver
        where = f'{f.module.rel}:{line} {self.q}'
        if lv is TOP or lv[0] != 'pos':
            self.bad('location-not-understood', self.q, where, f'{self.q} registers a rollback at an unknown location')
            return
        advs = [st.get(('adv',))] if st.get(('adv',)) is not None else [0, 1]
        if nomatch:
            if inv == () and lv[1] == 'start' and lv[2] in (-1, 0):
                return
            advs = [0]
        if end is not TOP and end == ('pos', 'start', 0):
            advs = [0]
        for adv in advs:
            x = lv[2] + (adv if lv[1] == 'end' else 0)
            # positions relative to the start of a match that is adv long
            if adv and not 0 <= x < adv:
                self.bad('wrong-rollback-location', f'{self.q}|match', where,
                         f'{self.q} registers the rollback {x:+d} characters from the start of a match: '
                         + ('it will be undone as soon as the parse goes on' if x > 0 else
                            'it will not be undone when another alternative is tried at the same location'))
            if not adv and x != -1:
                self.bad('wrong-rollback-location', f'{self.q}|empty match', where,
                         f'{self.q} registers the rollback {x:+d} characters from an empty match'
                         + (': it will be undone as soon as the parse goes on' if x >= 0 else ''))

    def check(self):
        f = self.driver
        ps = f.params()
        n = 0
        all_ops = set()
        matched = set()
        for s in Flow(self).run(f, [St({'W': 0, ('v', 1, ps[1]): ('pos', 'start', 0)})]).ret:
            n += 1
            ops = self.leave(s)
            all_ops.add(ops)
            r = s.get('ret')
            node = r[1] if r is not TOP and r[0] == 'tup' and len(r) == 3 else TOP
            if not (node == ('none',) or node is not TOP and node[0] == 'rn' and node[1]) and not s.get('failed'):
                matched.add(tuple(o[:2] for o in ops))
        if not n:
            raise AnalysisError(f'{self.q}: no exit reached')
        self.matched = matched
        return n


def touches(ix: Index, f: Func, depth=0, seen=None) -> Optional[str]:
    """does f itself, or a helper of its class, read or change variables or call another parser?"""
    seen = seen if seen is not None else set()
    if id(f.node) in seen or depth > 4:
        return None
    seen.add(id(f.node))
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ('variables__', 'push_rollback__'):
            return n.attr
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id == 'self' and f.cls is not None:
            g = ix.lookup(f.cls, n.func.attr)
            if g is not None:
                r = touches(ix, g, depth + 1, seen)
                if r:
                    return r
    return None


def calls_parser(f: Func) -> Optional[ast.Call]:
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            x = n.func
            if isinstance(x, ast.Attribute) and x.attr in ('parser', '_parse', '_parse_proxy', '__call__') and not (
                    isinstance(x.value, ast.Call)):
                return n
            if isinstance(x, ast.Name) and x.id == 'parser':
                return n
    return None


def check(ix: Index, rep, tier: str):
    mod = ix.module('parse')
    parser = ix.cls('parse', 'Parser')
    classes = [c for m in ('parse', 'trace') for c in ix.module(m).classes.values() if parser in ix.mro(c)]
    reported: Set[Tuple] = set()

    def bad(rule, construct, where, msg):
        if (rule, construct) not in reported:
            reported.add((rule, construct))
            rep.violation(rule, construct, where, msg)

    # -- guards: one run for every distinct __call__
    guards: Dict[int, Tuple[Func, List]] = {}
    for c in classes:
        f = ix.lookup(c, '__call__')
        if f is None:
            raise AnalysisError(f'{c.name} has no __call__')
        guards.setdefault(id(f.node), (f, []))[1].append(c)
    followed: Dict[int, Func] = {}
    for f, cs in guards.values():
        # parsers that call no other parsers and do not touch variables cannot depend on them
        dirty = []
        for c in cs:
            p = ix.lookup(c, '_parse')
            if p is None or c.name in ('Parser', 'LeafParser', 'NoMemoizationParser') or not c.methods and not p:
                continue
            leaf = ix.cls('parse', 'LeafParser') in ix.mro(c)
            t = touches(ix, p)
            if t or not leaf:
                dirty.append((c, p, t))
            elif calls_parser(p) is not None:
                dirty.append((c, p, 'calls another parser'))
        clean = not dirty
        g = Guard(ix, bad, f, cs[0], '', clean)
        n = g.check()
        rep.count('states of guards', n)
        rep.count('guards')
        rep.ok(f'{f.qual}: {len(cs)} classes, {"leaf parsers only" if clean else "parsers that call parsers"}', n)
        followed[id(f.node)] = f
        if 'memo' in g.seen and 'rollback' not in g.seen:
            pass
    rep.floor('guards', 5)
    rep.floor('states of guards', 60)

    # -- the stack
    for cls_, name in ((Rollback, 'rollback_to__'), (Push, 'push_rollback__')):
        f = ix.func('parse', 'Grammar.' + name)
        n = cls_(ix, bad, f, ix.cls('parse', 'Grammar')).check()
        followed[id(f.node)] = f
        rep.count('states of the rollback stack', n)
        rep.ok(f'{f.qual}', n)

    # -- parsers that touch variables
    WANT = {'Capture': (('append', 'var'),), 'Retrieve': (), 'Pop': (('append', 'kept'), ('pop', 'var'))}
    for c in classes:
        f = ix.lookup(c, '_parse')
        if f is None or not touches(ix, f):
            continue
        stored = set()
        for k in ix.mro(c):
            for m in k.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' \
                            and isinstance(n.ctx, ast.Store) and m.name in ('reset', '__init__'):
                        s = next((x for x in ast.walk(m.node) if isinstance(x, (ast.Assign, ast.AnnAssign)) and any(
                            y is n for t in (x.targets if isinstance(x, ast.Assign) else [x.target])
                            for y in ast.walk(t))), None)
                        if s is not None and isinstance(s.value, ast.List) and not s.value.elts:
                            stored.add(n.attr)
        v = VarParse(ix, bad, f, c, stored)
        n = v.check()
        rep.count('classes that touch variables')
        rep.count('exits of classes that touch variables', n)
        rep.ok(f'{c.name}._parse', n)
        want = WANT.get(c.name)
        if want is not None:
            got = {tuple(sorted(m)) for m in v.matched}
            if want not in got:
                bad('variables-not-changed', f'{c.name}._parse', f.where,
                    f'{c.name}._parse: a match does not change the variables as documented '
                    f'({want or "no change"}; found: {sorted(got)})')
            for m in got - {want} - ({()} if c.name == 'Pop' else set()):
                bad('variables-not-changed', f'{c.name}._parse|other', f.where,
                    f'{c.name}._parse: a match may change the variables differently than documented: {m}')
        followed[id(f.node)] = f
        for k in ix.mro(c):
            for m in k.methods.values():
                if m.name in ('_rollback', '_rollback_location', 'retrieve_and_match') or id(m.node) in v.summaries:
                    followed[id(m.node)] = m
    rep.floor('classes that touch variables', 3)
    for name in ('last_value', 'optional_last_value', 'matching_bracket'):
        f = ix.resolve_func(mod, name)
        if f is None:
            continue
        rep.count('match functions')
        p = f.params()[1] if len(f.params()) > 1 else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == p and n.func.attr in ('pop', 'append', 'clear', 'extend', 'insert',
                                                                   'remove', 'reverse', 'sort') \
                    or isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p \
                    and not isinstance(n.ctx, ast.Load):
                bad('match-function-changes-stack', name, f'{f.module.rel}:{n.lineno} {f.qual}',
                    f'the match function {name} changes the stack it is to read')
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p \
                    and isinstance(n.slice, (ast.Constant, ast.UnaryOp)) and unparse(n.slice) != '-1':
                bad('not-the-last-value', name, f'{f.module.rel}:{n.lineno} {f.qual}',
                    f'the match function {name} takes {unparse(n)} instead of the most recent value')

    # -- nobody else touches the state
    allowed = {'Grammar.__init__', 'Grammar._reset__', 'Grammar.__call__'}
    funcs = [f for f in ix.all_functions() if f.module.name in ('parse', 'trace')]
    by_name: Dict[str, Set[str]] = {}
    for f in funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) \
                    else ''
                by_name.setdefault(d, set()).add(f.qual)

    def ok(f: Func, seen=()) -> bool:
        if id(f.node) in followed or f.qual in allowed:
            return True
        if f.outer is not None and ok(f.outer, seen):
            return True
        if f.qual in seen:
            return False
        quals = by_name.get(f.name, set())
        g = [h for h in funcs if h.qual in quals]
        return bool(g) and all(ok(h, seen + (f.qual,)) for h in g)
    MUT = ('append', 'pop', 'clear', 'extend', 'insert', 'remove', 'reverse', 'sort', 'update', 'popitem', 'setdefault')
    for f in funcs:
        own = [n for n in ast.walk(f.node)]
        for n in own:
            w = None
            if isinstance(n, ast.Attribute) and n.attr in VARS and isinstance(n.ctx, (ast.Store, ast.Del)):
                w = n.attr
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                b = n.func.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute) and b.attr in VARS:
                    w = b.attr
            elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                b = n
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute) and b.attr in VARS:
                    w = b.attr
            if w is None:
                continue
            rep.count('writes of the variable state')
            if ok(f):
                rep.ok(f'{f.qual}: {w}')
            else:
                bad('written-elsewhere', f'{f.qual}|{w}', f'{f.module.rel}:{n.lineno} {f.qual}',
                    f'{f.qual} changes {w}, which only the guards, the rollback stack and the parsers that capture '
                    'may do')
        # calls that bypass the guard
        if id(f.node) in followed or f.name in ('trace_history', 'resume_notices_on') or f.qual == 'cancel_proxy':
            continue
        for n in own:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '_parse':
                rep.count('direct calls of _parse()')
                a = n.args[0] if n.args else None
                if isinstance(n.func.value, ast.Call) or isinstance(n.func.value, ast.Name) and \
                        n.func.value.id not in ('self', 'parser') and ix.find_class(f.module, n.func.value.id):
                    continue            # super()._parse(), Class._parse(self, ...)
                if isinstance(a, ast.Constant) or not _in_parse(f, by_name):
                    rep.ok(f'{f.qual}: _parse() outside of a parse')
                else:
                    bad('guard-bypassed', f.qual, f'{f.module.rel}:{n.lineno} {f.qual}',
                        f'{f.qual} calls {unparse(n.func)}() directly: captures are not rolled back when the parse '
                        'goes back')
    rep.floor('writes of the variable state', 12)


def _in_parse(f: Func, by_name) -> bool:
    return f.name in ('_parse', '__call__') or bool(by_name.get(f.name, set()) & {'_parse'}) or \
        any(q.endswith('._parse') for q in by_name.get(f.name, set()))
