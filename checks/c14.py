"""C14: fatal errors stop the processing; crashes after errors become errors; the error flag keeps up."""
from __future__ import annotations
import ast

from sa.src import Index, Func, FUNC, dotted, unparse, AnalysisError
from sa.flow import Flow
from sa.stages import Driver, PipelineDriver, St, TOP, LEVELS, level_of, interval_cmp

EXPLANATION = (
    'Abstract execution (path-sensitive typestate analysis) of compile_source, process_tree, run_pipeline, '
    'full_pipeline, RootNode.add_error, RootNode.new_error and has_errors over the levels none / notice or warning / '
    'error / fatal: stages may raise the level or crash in every combination; helpers, local flags, handlers, loops '
    'and finally-clauses are followed. A violation is a path on which a stage is called after a fatal error, stages '
    'are left out without one, an exception of a tree-processing stage is swallowed or let through against the rule, '
    'an error is added after the returned errors were read, or an added error is missing in the list or the flag.')
ASSUMPTIONS = ['a stage that returns a tree has carried the errors over to it',
               'trees that come from outside may have any level of errors']

DRIVERS = (('compile', 'compile_source'), ('compile', 'process_tree'), ('pipeline', 'run_pipeline'),
           ('pipeline', 'full_pipeline'))


class AddError(Driver):
    """RootNode.add_error / new_error: self is the tree 'self', the error has the level 'new'"""
    modules = ('nodetree', 'error')

    def target(self, call, st, flow, func):
        f = self.callee(call, st, flow, func)
        if f is None or f.name in self.opaque or f in flow.stack or any(f.node is x.node for x in flow.stack):
            return None
        if f.module.name == 'error':
            return super().target(call, st, flow, func)
        if f.name == 'add_error':
            return None
        names = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        if names & {'errors', '_error_set', 'error_flag', 'add_error'} and f.cls is not None \
                and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            return f
        return None

    def bind(self, callee, call, st, flow, func):
        st = super().bind(callee, call, st, flow, func)
        if callee.is_method:
            st = st.set(('v', len(flow.stack) + 1, callee.params()[0]), ('tree', 'self'))
        return st

    def store_attr(self, t, st, v, flow, func):
        b = self.val(t.value, st, flow, func)
        if b == ('tree', 'self') and t.attr == 'error_flag':
            r = None
            if v is not TOP:
                for s, x in self.force(lambda x: self.rng(v, x), st):
                    r = x
            return st.set(('sev', 'self'), level_of(r[0]) if r is not None else 0, 'other', 1 if r is None else None)
        return super().store_attr(t, st, v, flow, func)

    def on_store(self, t, st, flow, func):
        if isinstance(t, ast.Attribute) and isinstance(t._stmt, ast.AugAssign) and t.attr == 'errors':
            return (st.set('app', 1),)
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == 'errors':
            return (st.set('app', 1),)
        return super().on_store(t, st, flow, func)

    def other_call(self, name, call, st, flow, func):
        if name in ('append', 'insert', 'extend') and isinstance(call.func, ast.Attribute):
            b = self.val(call.func.value, st, flow, func)
            if b == ('errs', 'self'):
                return [(st.set('app', 1), ('none',))]
        return super().other_call(name, call, st, flow, func)

    def assume(self, test, st, truth, flow, func):
        v = self.val(test, st, flow, func)
        if v is not TOP and v[0] == 'dup' and v[1] == truth:
            return st.set('dup', 1)
        return st

    def val(self, e, st, flow, func):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            l = self.val(e.left, st, flow, func)
            if l is not TOP and l[0] == 'errobj':
                return ('dup', isinstance(e.ops[0], ast.In))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.val(e.operand, st, flow, func)
            if v is not TOP and v[0] == 'dup':
                return ('dup', not v[1])
        return super().val(e, st, flow, func)


class HasErrors(Driver):
    """the level of the list is 'm'; every element has some level up to that, one of them exactly that level"""

    def may_skip(self, loop, st, flow, func):
        return self.level('m', st) == 0

    def on_store(self, t, st, flow, func):
        s = t._stmt
        if isinstance(s, ast.For) and s.target is t and isinstance(t, ast.Name):
            v = self.val(s.iter, st, flow, func)
            if v == ('errs', 'm'):
                res = []
                for l in range(1, self.level('m', st) + 1):
                    res.append(st.set(('v', self.home(t.id, flow, func), t.id), ('elem', 'el'), ('sev', 'el'), l,
                                      'seen', max(l, st.get('seen', 0))))
                return res
        return super().on_store(t, st, flow, func)

    def learn(self, st, key, o):
        return st.set(key, o)

    def on_break(self, node, st, flow, func):
        pass

    def event(self, kind, node, st, flow, func):
        if kind == 'break':
            return (st.set('early', 1),)
        if kind == 'return' and any(node is x for n in ast.walk(func.node) if isinstance(n, (ast.For, ast.While))
                                    for x in ast.walk(n)):
            st = st.set('early', 1)
        return super().event(kind, node, st, flow, func)


def comparisons(f, rep):
    """has_errors() written with iterators or intermediate lists: only the comparison of the codes is decided"""
    level = f.params()[1]
    seen = 0
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r, op = n.left, n.comparators[0], type(n.ops[0])
            if isinstance(r, ast.Attribute) and r.attr == 'code':
                l, r = r, l
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
            if isinstance(l, ast.Attribute) and l.attr == 'code':
                seen += 1
                if not (isinstance(r, ast.Name) and r.id == level) or op not in (ast.GtE, ast.Lt):
                    rep.violation('predicate', 'has_errors', f'{f.module.rel}:{n.lineno}',
                                  f'has_errors() compares the codes by {unparse(n)}, not by >= level')
                else:
                    rep.ok('has_errors compares codes with the level')
    if not seen:
        rep.ok('has_errors leaves the comparison to another function')


def check(ix: Index, rep, tier):
    def bad(aspect, rule, construct, where, msg):
        if aspect == 'fatal':
            rep.violation(rule, construct, where, msg)

    # -- the drivers ------------------------------------------------------------------------
    for mod, name in DRIVERS:
        f = ix.func(mod, name)
        d = PipelineDriver(ix, bad, f)
        n = d.check()
        rep.count('exit states of drivers', n)
        rep.count('stage calls', len(d.stage_calls))
        rep.ok(f'{name}: {n} exit states, stage calls {sorted({x[1] for x in d.stage_calls})}', max(1, n))
        if not d.stage_calls:
            raise AnalysisError(f'{name}: no call of a stage has been recognised')
        want = {'compile_source': {'preprocessor', 'parser', 'transformer', 'compiler'}, 'process_tree': {'tp'},
                'run_pipeline': {'junction'}, 'full_pipeline': {'compile_source', 'run_pipeline'}}[name]
        missing = want - {x[1] for x in d.stage_calls}
        if missing:
            rep.violation('stages-left-out', f'{name}|{"/".join(sorted(missing))}', f.where,
                          f'{name} never calls the {", ".join(sorted(missing))}')
    rep.floor('stage calls', 8)

    # -- levels -----------------------------------------------------------------------------
    em = ix.module('error')
    d0 = Driver(ix, bad)
    for name, lo in (('NOTICE', 1), ('WARNING', 100), ('ERROR', 1000), ('FATAL', 10000)):
        v = d0.global_value(em, name)
        if v is TOP or v[0] != 'int' or v[1] != lo:
            rep.violation('level-moved', name, f'{em.rel} {name}',
                          f'the level {name} is documented to begin at {lo}')
        else:
            rep.ok(f'{name} = {lo}')
    for name in ('TREE_PROCESSING_CRASH', 'AST_TRANSFORM_CRASH', 'COMPILER_CRASH', 'CANCELED'):
        v = d0.global_value(em, name)
        if v is TOP or v[0] != 'int' or v[1] < 10000:
            rep.violation('not-fatal', name, f'{em.rel} {name}', f'{name} is not the code of a fatal error')
        else:
            rep.ok(f'{name} is fatal')
    # predicates: checked for every level against every kind of argument
    for fname, lo in (('is_fatal', 10000), ('is_error', 1000)):
        f = ix.func('error', fname)
        for l in range(4):
            for arg in (('sev', 'x'), ('elem', 'x')):
                d = Driver(ix, bad)
                o = Flow(d).run(f, [St({'W': 0, ('sev', 'x'): l, ('v', 1, f.params()[0]): arg})])
                want = interval_cmp(LEVELS[l], '>=', (lo, lo))
                for s in o.ret:
                    t = None
                    for s1, t in d.force(lambda x: d.truth(s.get('ret'), x), s):
                        if t is not want:
                            rep.violation('predicate', fname, f.where,
                                          f'{fname}() does not answer {want} for codes from {LEVELS[l][0]} to '
                                          f'{LEVELS[l][1]}')
                        else:
                            rep.ok(f'{fname} level {l}')
    f = ix.func('error', 'has_errors')
    plain = not any(isinstance(n, ast.Call) and dotted(n.func) in
                    ('iter', 'next', 'filter', 'map', 'list', 'tuple', 'sorted', 'set', 'len', 'sum', 'zip', 'enumerate',
                     'reversed', 'bool') for n in ast.walk(f.node)) and \
        not any(isinstance(n, ast.GeneratorExp) and isinstance(q, (ast.Assign, ast.AnnAssign))
                for q in ast.walk(f.node) for n in [getattr(q, 'value', None)])
    if not plain:
        comparisons(f, rep)
    for l in range(4) if plain else ():
        for n in (1, 1000, 10000):
            d = HasErrors(ix, bad)
            ps = f.params()
            o = Flow(d).run(f, [St({'W': 0, ('sev', 'm'): l, ('v', 1, ps[0]): ('errs', 'm'),
                                    ('v', 1, ps[1]): ('int', n, '')})])
            want = LEVELS[l][0] >= n
            for s in o.ret:
                if s.get('seen', 0) != l and not s.get('early'):
                    continue        # not a run over the whole list
                for s1, t in d.force(lambda x: d.truth(s.get('ret'), x), s):
                    if t is not None and t is not want:
                        rep.violation('predicate', 'has_errors', f.where,
                                      f'has_errors(messages, {n}) may answer {t} for a list whose most severe message '
                                      f'has a code from {LEVELS[l][0]} to {LEVELS[l][1]}')
                    elif t is None:
                        rep.violation('predicate', 'has_errors', f.where,
                                      f'what has_errors(messages, {n}) answers does not depend on the codes alone')
                    else:
                        rep.ok(f'has_errors level {l} threshold {n}')

    # -- recording of errors ------------------------------------------------------------------
    f = ix.func('nodetree', 'RootNode.add_error')
    ps = f.params()
    for old in range(4):
        for new in range(1, 4):
            d = AddError(ix, bad)
            o = Flow(d).run(f, [St({'W': 0, ('sev', 'self'): old, ('sev', 'new'): new,
                                    ('v', 1, ps[0]): ('tree', 'self'), ('v', 1, ps[1]): ('u', 'node'),
                                    ('v', 1, ps[2]): ('errobj', ('sev', 'new'))})])
            for s in o.ret:
                flag = s.get(('sev', 'self'), 0)
                if s.get('app') and (flag < max(old, new) or s.get('other')):
                    rep.violation('flag-behind', 'RootNode.add_error', f.where,
                                  f'add_error may record an error of level {new} in a tree of level {old} and leave '
                                  f'error_flag at level {flag}')
                elif not s.get('app') and not s.get('dup'):
                    rep.violation('error-lost', 'RootNode.add_error', f.where,
                                  'add_error may return without having recorded an error that it did not have yet')
                else:
                    rep.ok(f'add_error: tree level {old}, error level {new}')
                if s.get('dup') and not s.get('app') and flag < old:
                    rep.violation('flag-behind', 'RootNode.add_error', f.where, 'add_error may lower error_flag')
    f = ix.func('nodetree', 'RootNode.new_error')
    ps = f.params()
    for new in range(1, 4):
        d = AddError(ix, bad)
        o = Flow(d).run(f, [St({'W': 0, ('sev', 'self'): 0, ('sev', 'new'): new,
                                ('v', 1, ps[0]): ('tree', 'self'), ('v', 1, ps[1]): ('u', 'node'),
                                ('v', 1, ps[3]): ('sev', 'new'), ('v', 1, 'limit'): ('int', -1, '')})])
        for s in o.ret:
            if s.get(('sev', 'self'), 0) < new:
                rep.violation('error-lost', 'RootNode.new_error', f.where,
                              f'new_error may return without having added an error of level {new}')
            else:
                rep.ok(f'new_error: level {new}')
    # -- reading the errors ---------------------------------------------------------------------
    f = ix.func('nodetree', 'RootNode.errors_sorted')
    d = AddError(ix, bad)
    picks = [n for n in ast.walk(f.node) if isinstance(n, ast.comprehension) and n.ifs
             or isinstance(n, ast.Slice) and (n.lower is not None or n.upper is not None)
             or isinstance(n, ast.Call) and dotted(n.func) in ('filter', 'only_errors', 'set', 'dict', 'dict.fromkeys')
             or isinstance(n, (ast.DictComp, ast.SetComp, ast.Continue, ast.Break))]
    o = Flow(d).run(f, [St({'W': 0, ('sev', 'self'): 2, ('v', 1, f.params()[0]): ('tree', 'self')})])
    for s in o.ret:
        v = s.get('ret')
        if v == ('errs', 'self') or v is TOP and not picks:
            rep.ok('errors_sorted returns all errors')
        else:
            rep.violation('error-missing-in-result', 'RootNode.errors_sorted', f.where,
                          'errors_sorted may leave out errors of the tree')
    root = ix.cls('nodetree', 'RootNode')
    for g in ix.all_functions():
        mine = g.cls is not None and (g.cls is root or ix.is_subclass(g.cls, 'RootNode'))
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr == 'error_flag':
                st = next((x for x in ast.walk(g.node) if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign))
                           and any(t is n for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))), None)
                v = getattr(st, 'value', None)
                rep.count('writes of the error flag')
                fine = g.name == 'add_error' and mine \
                    or g.name == '__init__' and mine \
                    or v is not None and any(isinstance(x, ast.Attribute) and x.attr == 'error_flag'
                                             for x in ast.walk(v)) and \
                    any(isinstance(x, ast.Attribute) and x.attr == 'errors' and isinstance(x.ctx, ast.Store)
                        for x in ast.walk(g.node)) \
                    or isinstance(v, ast.Call) and dotted(v.func) == 'max' and any(
                        isinstance(x, ast.Attribute) and x.attr == 'error_flag' and dotted(x) == dotted(n)
                        for x in ast.walk(v))
                if not fine and mine and reached_only_from(ix, root, g, 'add_error'):
                    fine = True
                if fine:
                    rep.ok(f'{g.qual}: {unparse(st) if st is not None else n.attr}')
                else:
                    rep.violation('flag-behind', f'{g.qual}', f'{g.module.rel}:{n.lineno} {g.qual}',
                                  f'{g.qual} sets error_flag to {unparse(v) if v is not None else "?"}: it may fall '
                                  'behind the errors of the tree')
            tgt = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'append', 'extend', 'insert', 'remove', 'clear', 'pop') and isinstance(n.func.value, ast.Attribute) \
                    and n.func.value.attr == 'errors':
                tgt = n.func.value
            elif isinstance(n, ast.Attribute) and n.attr == 'errors' and isinstance(n.ctx, (ast.Store, ast.Del)):
                tgt = n
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                    and isinstance(n.value, ast.Attribute) and n.value.attr == 'errors':
                tgt = n.value
            if tgt is not None:
                own = isinstance(tgt.value, ast.Name) and tgt.value.id == 'self'
                if own and g.cls is not None and not mine:
                    continue
                rep.count('writes of the list of errors')
                if mine and (g.name in ('__init__', 'add_error') or reached_only_from(ix, root, g, 'add_error')):
                    rep.ok(f'{g.qual}: {unparse(n, 60)}')
                elif any(isinstance(x, ast.Attribute) and x.attr == 'error_flag' and isinstance(x.ctx, ast.Store)
                         for x in ast.walk(g.node)) and not isinstance(n, ast.Call):
                    rep.ok(f'{g.qual}: errors and flag are copied together')
                else:
                    rep.violation('errors-bypass-flag', f'{g.qual}', f'{g.module.rel}:{n.lineno} {g.qual}',
                                  f'{g.qual} changes the errors of a tree directly ({unparse(n, 60)}): error_flag does '
                                  'not take notice')
    rep.floor('writes of the error flag', 2)
    rep.floor('writes of the list of errors', 2)

    # -- equality of errors: an error must not be taken for a duplicate of a less severe one ---
    c = ix.cls('error', 'Error')
    eq, hs = c.methods.get('__eq__'), c.methods.get('__hash__')
    if eq is not None:
        attrs = {n.attr for n in ast.walk(eq.node) if isinstance(n, ast.Attribute)}
        if 'code' in attrs:
            rep.ok('Error.__eq__ compares the codes')
        else:
            rep.violation('error-lost', 'Error.__eq__', eq.where,
                          'errors of different codes are equal: add_error drops a fatal error as a duplicate of a '
                          'warning at the same place')


def reached_only_from(ix, cls, f: Func, name: str) -> bool:
    """is the method f called from the method `name` (directly) and from nowhere else?"""
    callers = set()
    for g in ix.all_functions():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name:
                callers.add(g.name)
    return callers == {name}
