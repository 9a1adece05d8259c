"""C02: a parser that does not match, and every lookaround, consumes nothing; no parser moves backwards."""
from sa.absint import NONE
from sa.src import unparse
from .posdom import *

EXPLANATION = (
    "Abstract interpretation of every parser class' matching routine, guard (__call__) and tracing proxy over "
    "a domain of reading positions (order facts between position terms; sub-parser calls are replaced by the "
    "contract under proof: no match -> same position, match -> position not smaller). On every path to a "
    "return it is decided that a non-match returns the start position, a match a position not smaller than "
    "the start, and a flow (lookaround) parser exactly the start position; memo-table writes and ParserError "
    "arguments are held to the same contract. Loops are run to a fixpoint; nothing is executed.")
ASSUMPTIONS = [
    "assume-guarantee induction over the (finite) depth of nested parser calls",
    "user-supplied parse functions and match functions (custom parsers) are outside the contract; the "
    "length of what they return is non-negative",
    "regular-expression match objects end at or after the position passed to match()",
]


def targets(ix):
    base = ix.cls('parse', 'Parser')
    flow = ix.cls('parse', 'FlowParser')
    for c in ix.subclasses(base):
        for name in ('_parse', '__call__'):
            f = ix.lookup(c, name)
            if f is None:
                raise AnalysisError(f'{c.name}.{name} has vanished')
            own = name in c.methods or name in c.assigns
            # every class with its own definition, and every class whose ancestors' definition may
            # behave differently because the class overrides another method
            if own or (name == '_parse' and c.methods):
                if unimplemented(f):
                    continue
                yield c, f, flow in ix.mro(c) and name == '_parse'


def unimplemented(f):
    body = [s for s in f.node.body
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


class Dom(PosDomain):
    memo = None
    rep = None

    def on_memo_store(self, it, st, idx, val, node):
        self.memo.append((it.frame.func, st, idx, val, node))

    def call(self, it, st, node, fv, args, kw):
        if fv[0] == 'class' and fv[1].name == 'ParserError' or \
                (fv[0] == 'attr' and fv[2] == 'new_PE') or (fv[0] == 'bound' and fv[1].name == 'new_PE'):
            self.raised_pe.append((it.frame.func, st, args, kw, node))
        return super().call(it, st, node, fv, args, kw)


def judge(dom, it, rep, label, func, st, val, node, flow, what='return'):
    where = f'{func.module.rel}:{getattr(node, "lineno", func.node.lineno)} {label}'
    if val[0] != 'tuple' or len(val[1]) != 2:
        rep.violation('result-shape', f'{label}:{what}', where,
                      f'cannot show that the {what} value is a (node, position) pair with a position '
                      f'derived from the start position')
        return
    n, l = val[1]
    none = dom.none_of(it, st, n)
    if none is not False and not equal(st, l, START):
        rep.violation('nomatch-moves', f'{label}:{what}', where,
                      f'a path {what}s a non-match with a position that is not the position the parser '
                      f'was started at: {unparse(node)}')
        return
    if flow and not equal(st, l, START):
        rep.violation('lookaround-moves', f'{label}:{what}', where,
                      f'a lookahead/lookbehind parser {what}s a position other than its start: {unparse(node)}')
        return
    if none is False and (not is_pos(l) or rel(st, l, START) is None):
        rep.violation('moves-backwards', f'{label}:{what}', where,
                      f'cannot show that the position of a match is not before the start: {unparse(node)}')
        return
    rep.ok(f'{where}: {what} ok')


def check(ix, rep, tier):
    trace = ix.module('trace')
    jobs = list(targets(ix))
    base = ix.cls('parse', 'Parser')
    for name in ('trace_history',):
        f = ix.func('trace', name)
        jobs.append((base, f, False))
    f = ix.func('parse', 'cancel_proxy')
    jobs.append((base, f, False))
    jobs = [(c, f, flow, None) for c, f, flow in jobs]
    jobs.append((base, ix.func('trace', 'trace_history'), False, {'location': ('neg', START)}))
    for c, func, flow, extra in jobs:
        dom = Dom(ix)
        dom.memo = []
        it = run_parser(ix, c, func, dom, extra)
        label = f'{c.name}.{func.name}' if func.cls else func.name
        rep.count('routines')
        rep.count('parser_call_sites_evaluated', dom.parser_calls)
        rep.count('returns', len(dom.returns))
        for (fn, st, val, node) in dom.returns:
            judge(dom, it, rep, label, fn, st, val, node, flow)
        for (fn, st, idx, val, node) in dom.memo:
            rep.count('memo_writes')
            if not equal(st, idx, START):
                rep.violation('memo-key', f'{label}:memo', fn.where,
                              'a result is memorized under a position other than the one it was obtained at')
            else:
                judge(dom, it, rep, label, fn, st, val, node, False, 'memorize')
        for (fn, st, args, kw, node) in dom.raised_pe:
            rep.count('parser_errors')
            loc = kw.get('location', args[3] if len(args) > 3 else None)
            ln = kw.get('node_orig_len', args[2] if len(args) > 2 else None)
            w = f'{fn.module.rel}:{node.lineno} {label}'
            if loc is not None and not (is_pos(loc) and rel(st, loc, START) is not None):
                rep.violation('error-position', f'{label}:ParserError.location', w,
                              'parser error raised with a start position before the parser\'s start')
            elif ln is not None and (dom.lo(st, ln) is None or dom.lo(st, ln) < 0):
                rep.violation('error-length', f'{label}:ParserError.length', w,
                              'parser error raised with a length that may be negative')
            else:
                rep.ok()
        if not dom.returns:
            rep.violation('no-return', label, func.where, 'no path returns a result')
    # the values the combinators wrap their results with are never None
    comb = ix.cls('parse', 'CombinedParser')
    names = set()
    for f in list(ix.all_functions()):
        if f.module.name != 'parse':
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr in ('_return_value', '_return_values') \
                            and isinstance(n.value, ast.Attribute):
                        names.add(n.value.attr)
    for nm in sorted(names):
        f = ix.lookup(comb, nm)
        if f is None:
            raise AnalysisError(f'result builder CombinedParser.{nm} has vanished')
        cases = [('pres', 'arg')] if '_return_values' in nm else [('pres', 'arg'), NONE]
        for a in cases:
            dom = Dom(ix)
            dom.memo = []
            it = Interp(ix, dom)
            ps = f.params()
            it.run(f, {ps[0]: inst(comb), ps[1]: a}, {}, inst(comb))
            rep.count('result_builders')
            for (fn, st, val, node) in dom.returns:
                nn = val[0] in ('inst', 'pres', 'glob') or val == a and a != NONE
                if not nn and dom.none_of(it, st, val) is not False:
                    rep.violation('builder-none', nm, fn.where,
                                  f'a result builder may return None, turning a match into a non-match')
                else:
                    rep.ok()
    rep.floor('routines', 30)
    rep.floor('memo_writes', 4)
    rep.floor('result_builders', 6)
