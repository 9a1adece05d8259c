"""Path-sensitive typestate walker over the syntax tree.

A *state* is a set of atoms (any hashable value chosen by the client).  Every simple step maps one atom to
several; branches may be refined by the client; loops run to a fixpoint; exceptions leave every statement
that may raise, pass through handlers and finally-clauses, and reach the function's 'raise' exit."""
from __future__ import annotations
import ast
from typing import Dict, FrozenSet, Iterable, List, Optional, Set, Tuple

from .src import Func, FUNC, dotted, AnalysisError

MAXATOMS = 4000


class Client:
    """override what is needed"""
    #: exceptions leave calls only (True) or also subscripts, attribute accesses etc. (never modelled here)
    max_depth = 6
    #: 'store' events for the targets of comprehensions
    comp_targets = False
    #: loops over a literal tuple are run element by element
    unroll = False

    def event(self, kind: str, node: ast.AST, atom, flow: 'Flow', func: Func) -> Iterable:
        """kind: call | load | store | del | return | yield | raise | await | enter | exit | break"""
        return (atom,)

    def branch(self, test: ast.expr, atom, truth: bool, flow, func) -> Iterable:
        return (atom,)

    def may_raise(self, call: ast.AST, atom, flow, func) -> bool:
        return True

    def raised(self, call: ast.AST, atom, flow, func) -> Iterable:
        """the state in which the exception of a call leaves it"""
        return (atom,)

    def begin(self, stmt: ast.stmt, atom, flow, func):
        """a statement is about to be executed"""
        return atom

    def may_skip(self, loop: ast.AST, atom, flow, func) -> bool:
        """may a for-loop (or comprehension) be left without any run of its body?"""
        return True

    def target(self, call: ast.Call, atom, flow, func) -> Optional[Func]:
        """function to walk instead of treating the call as opaque"""
        return None

    def bind(self, callee: Func, call: ast.Call, atom, flow, func):
        """atom on entry of an inlined callee"""
        return atom

    def unbind(self, callee: Func, call: ast.Call, atom, before, flow, func):
        return atom

    def nested(self, node, atom, flow, func) -> Iterable:
        """definition of a nested function / lambda"""
        return (atom,)

    def catches(self, handler: ast.ExceptHandler, call_atom, flow, func) -> Tuple[bool, bool]:
        """(may catch, may let pass)"""
        if handler.type is None:
            return True, False
        d = {(dotted(t) or '').split('.')[-1] for t in
             (handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type])}
        if 'BaseException' in d:
            return True, False
        return True, True

    def catches_silent(self, handler: ast.ExceptHandler, atom, flow, func) -> bool:
        """may the handler catch what an operation other than a call raises?"""
        return self.catches(handler, atom, flow, func)[0]

    def loop_ends(self, node, flow, func) -> bool:
        """may a while loop end by its condition?"""
        return not (isinstance(node, ast.While) and isinstance(node.test, ast.Constant) and bool(node.test.value))


class Out:
    __slots__ = ('fall', 'ret', 'exc', 'brk', 'cont')

    def __init__(self):
        self.fall: Set = set()
        self.ret: Set = set()
        self.exc: Set = set()
        self.brk: Set = set()
        self.cont: Set = set()

    def absorb(self, o: 'Out', fall=False):
        self.ret |= o.ret
        self.exc |= o.exc
        self.brk |= o.brk
        self.cont |= o.cont
        if fall:
            self.fall |= o.fall


class Flow:
    def __init__(self, client: Client):
        self.c = client
        self.stack: List[Func] = []
        self.calls: List[ast.Call] = []
        self.memo: Dict = {}
        self.implicit: List[Set] = []

    # -- entry ------------------------------------------------------------------------

    def run(self, func: Func, atoms: Iterable) -> Out:
        """normal exits in .ret (falling off the end included), exceptional ones in .exc"""
        self.stack.append(func)
        try:
            res = Out()
            start = set()
            for a in atoms:
                start |= set(self.c.event('enter', func.node, a, self, func))
            o = self.block(func.node.body, start)
            res.ret = o.ret | o.fall
            res.exc = o.exc
            out = Out()
            for a in res.ret:
                out.ret |= set(self.c.event('exit', func.node, a, self, func))
            out.exc = res.exc
            return out
        finally:
            self.stack.pop()

    @property
    def func(self) -> Func:
        return self.stack[-1]

    @property
    def path(self) -> str:
        return ' > '.join(f.qual for f in self.stack)

    # -- statements ---------------------------------------------------------------------

    def block(self, stmts, atoms: Set) -> Out:
        out = Out()
        cur = set(atoms)
        for s in stmts:
            if not cur:
                break
            o = self.stmt(s, cur)
            out.absorb(o)
            cur = o.fall
            if len(cur) > MAXATOMS:
                raise AnalysisError(f'state explosion in {self.func.qual}')
        out.fall = cur
        return out

    def stmt(self, s, atoms: Set) -> Out:
        out = Out()
        atoms = {self.c.begin(s, a, self, self.func) for a in atoms}
        if self.implicit and not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Pass,
                                                ast.Continue, ast.Break)):
            if any(isinstance(n, (ast.Subscript, ast.Attribute, ast.BinOp, ast.Assert)) for n in ast.walk(s)):
                self.implicit[-1] |= atoms
        if isinstance(s, FUNC + (ast.ClassDef,)):
            for d in s.decorator_list:
                atoms = self.ev(d, atoms, out)
            for a in atoms:
                out.fall |= set(self.c.nested(s, a, self, self.func))
            return out
        if isinstance(s, ast.Return):
            if s.value is not None:
                atoms = self.ev(s.value, atoms, out)
            for a in atoms:
                out.ret |= set(self.c.event('return', s, a, self, self.func))
            return out
        if isinstance(s, ast.Raise):
            for e in (s.exc, s.cause):
                if e is not None:
                    atoms = self.ev(e, atoms, out)
            for a in atoms:
                out.exc |= set(self.c.event('raise', s, a, self, self.func))
            return out
        if isinstance(s, ast.Break):
            out.brk |= self.each('break', s, atoms)
            return out
        if isinstance(s, ast.Continue):
            out.cont |= atoms
            return out
        if isinstance(s, ast.If):
            t, f = self.cond(s.test, atoms, out)
            a = self.block(s.body, t)
            b = self.block(s.orelse, f)
            out.absorb(a, True)
            out.absorb(b, True)
            return out
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            return self.loop(s, atoms)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s, atoms)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            return self.try_(s, atoms)
        if isinstance(s, ast.Match):
            atoms = self.ev(s.subject, atoms, out)
            left = set(atoms)
            for c in s.cases:
                x = set(atoms)
                if c.guard is not None:
                    x, _ = self.cond(c.guard, x, out)
                out.absorb(self.block(c.body, x), True)
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    left = set()
            out.fall |= left
            return out
        if isinstance(s, ast.Assert):
            t, f = self.cond(s.test, atoms, out)
            for a in f:
                out.exc |= set(self.c.event('raise', s, a, self, self.func))
            out.fall = t
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if isinstance(s, ast.AugAssign):
                atoms = self.ev(s.target, atoms, out, aug=True)
            if s.value is not None:
                atoms = self.ev(s.value, atoms, out)
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    atoms = self.store(t, s, atoms, out)
            out.fall = set(atoms)
            return out
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    atoms = self.ev(t.value, atoms, out)
                    atoms = self.ev(t.slice, atoms, out)
                elif isinstance(t, ast.Attribute):
                    atoms = self.ev(t.value, atoms, out)
                atoms = self.each('del', t, atoms)
            out.fall = set(atoms)
            return out
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                atoms = self.ev(e, atoms, out)
        out.fall = set(atoms)
        return out

    def each(self, kind, node, atoms):
        res = set()
        for a in atoms:
            res |= set(self.c.event(kind, node, a, self, self.func))
        return res

    def store(self, t, stmt, atoms, out):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                atoms = self.store(x, stmt, atoms, out)
            return atoms
        if isinstance(t, ast.Starred):
            return self.store(t.value, stmt, atoms, out)
        if isinstance(t, ast.Attribute):
            atoms = self.ev(t.value, atoms, out)
        elif isinstance(t, ast.Subscript):
            atoms = self.ev(t.value, atoms, out)
            atoms = self.ev(t.slice, atoms, out)
        t._stmt = stmt
        return self.each('store', t, atoms)

    def loop(self, s, atoms) -> Out:
        out = Out()
        if not isinstance(s, ast.While):
            atoms = self.ev(s.iter, atoms, out)
        head: Set = set(atoms)
        exits: Set = set()
        breaks: Set = set()
        done: Set = set()
        first = True
        if self.c.unroll and isinstance(s, ast.For) and isinstance(s.iter, (ast.Tuple, ast.List)) \
                and len(s.iter.elts) <= 4 and not any(isinstance(x, ast.Starred) for x in s.iter.elts):
            for x in s.iter.elts:
                assign = ast.copy_location(ast.Assign(targets=[s.target], value=x), s)
                o = self.block(s.body, self.store(s.target, assign, head, out))
                out.ret |= o.ret
                out.exc |= o.exc
                breaks |= o.brk
                head = o.fall | o.cont
            exits, head = head, set()
        while True:
            new = head - done
            if not new:
                break
            done |= new
            if isinstance(s, ast.While):
                t, f = self.cond(s.test, new, out)
                if self.c.loop_ends(s, self, self.func):
                    exits |= f
            else:
                exits |= {a for a in new if not first or self.c.may_skip(s, a, self, self.func)}
                first = False
                t = self.store(s.target, s, new, out)
            o = self.block(s.body, t)
            if not isinstance(s, ast.While):
                exits |= o.fall | o.cont
            out.ret |= o.ret
            out.exc |= o.exc
            breaks |= o.brk
            head |= o.fall | o.cont
            if len(head) > MAXATOMS:
                raise AnalysisError(f'state explosion in a loop of {self.func.qual}')
        if s.orelse:
            o = self.block(s.orelse, exits)
            out.absorb(o)
            exits = o.fall
        out.fall = exits | breaks
        return out

    def with_(self, s, atoms) -> Out:
        out = Out()
        for i in s.items:
            atoms = self.ev(i.context_expr, atoms, out)
            i._with = s
            atoms = self.each('enter', i, atoms)
            if i.optional_vars is not None:
                atoms = self.store(i.optional_vars, s, atoms, out)
        o = self.block(s.body, atoms)

        def leave(x):
            for i in reversed(s.items):
                x = self.each('exit', i, x)
            return x
        suppress = any((dotted(i.context_expr.func) or '').split('.')[-1] == 'suppress'
                       for i in s.items if isinstance(i.context_expr, ast.Call))
        out.ret |= leave(o.ret)
        out.exc |= leave(o.exc)
        out.brk |= leave(o.brk)
        out.cont |= leave(o.cont)
        out.fall = leave(o.fall) | (leave(o.exc) if suppress else set())
        return out

    def try_(self, s, atoms) -> Out:
        res = Out()
        self.implicit.append(set())
        b = self.block(s.body, atoms)
        # a handler is there for a reason: operations other than calls may raise what it catches
        silent = self.implicit.pop()
        res.ret |= b.ret
        res.brk |= b.brk
        res.cont |= b.cont
        if s.orelse:
            e = self.block(s.orelse, b.fall)
            res.absorb(e, True)
        else:
            res.fall |= b.fall
        pend = set(b.exc)
        for h in s.handlers:
            if not pend and not silent:
                break
            take, keep = set(), set()
            for a in silent:
                if self.c.catches_silent(h, a, self, self.func):
                    take.add(a)
            for a in pend:
                c, p = self.c.catches(h, a, self, self.func)
                if c:
                    take.add(a)
                if p:
                    keep.add(a)
            out = Out()
            take = self.each('except', h, take)
            res.absorb(self.block(h.body, take), True)
            pend = keep
        res.exc |= pend
        if s.finalbody:
            fin = Out()
            for kind in ('fall', 'ret', 'exc', 'brk', 'cont'):
                x = getattr(res, kind)
                if not x:
                    continue
                o = self.block(s.finalbody, x)
                fin.absorb(o)
                getattr(fin, kind).update(o.fall)
            return fin
        return res

    # -- conditions -----------------------------------------------------------------------

    def cond(self, test, atoms, out) -> Tuple[Set, Set]:
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.cond(test.operand, atoms, out)
            return f, t
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur, f = set(atoms), set()
                for v in test.values:
                    t, x = self.cond(v, cur, out)
                    f |= x
                    cur = t
                return cur, f
            cur, t = set(atoms), set()
            for v in test.values:
                x, f = self.cond(v, cur, out)
                t |= x
                cur = f
            return t, cur
        if isinstance(test, ast.Constant):
            return (set(atoms), set()) if test.value else (set(), set(atoms))
        atoms = self.ev(test, atoms, out)
        t, f = set(), set()
        for a in atoms:
            t |= set(self.c.branch(test, a, True, self, self.func))
            f |= set(self.c.branch(test, a, False, self, self.func))
        return t, f

    # -- expressions ------------------------------------------------------------------------

    def ev(self, e, atoms, out: Out, aug=False) -> Set:
        if not atoms:
            return set()
        if isinstance(e, (ast.Constant,)):
            return atoms
        if isinstance(e, ast.Name):
            return self.each('load', e, atoms)
        if isinstance(e, ast.Lambda):
            res = set()
            for a in atoms:
                res |= set(self.c.nested(e, a, self, self.func))
            return res
        if isinstance(e, ast.BoolOp) or isinstance(e, ast.IfExp):
            if isinstance(e, ast.IfExp):
                t, f = self.cond(e.test, atoms, out)
                return self.ev(e.body, t, out) | self.ev(e.orelse, f, out)
            cur = set(atoms)
            res = set()
            for i, v in enumerate(e.values):
                last = i == len(e.values) - 1
                if last:
                    res |= self.ev(v, cur, out)
                else:
                    t, f = self.cond(v, cur, out)
                    if isinstance(e.op, ast.And):
                        res |= f
                        cur = t
                    else:
                        res |= t
                        cur = f
            return res
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            first = True
            start = None
            cur = atoms
            left = set()
            for g in e.generators:
                cur = self.ev(g.iter, cur, out)
                if self.c.comp_targets:
                    cur = self.store(g.target, g, cur, out)
                if first:
                    start = set(cur)
                    first = False
                for c in g.ifs:
                    cur, x = self.cond(c, cur, out)
                    left |= x
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                cur = self.ev(x, cur, out)
            return {a for a in start if self.c.may_skip(e, a, self, self.func)} | cur | left
        if isinstance(e, ast.NamedExpr):
            atoms = self.ev(e.value, atoms, out)
            e.target._stmt = e
            return self.each('store', e.target, atoms)
        if isinstance(e, ast.Call):
            return self.call(e, atoms, out)
        if isinstance(e, ast.Attribute):
            atoms = self.ev(e.value, atoms, out)
            return self.each('load', e, atoms)
        if isinstance(e, ast.Subscript):
            atoms = self.ev(e.value, atoms, out)
            atoms = self.ev(e.slice, atoms, out)
            return self.each('load', e, atoms)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                atoms = self.ev(e.value, atoms, out)
            for a in atoms:
                r = self.c.event('yield', e, a, self, self.func)
                out.exc |= {x for x in r if self.c.may_raise(e, x, self, self.func)}
            return self.each('yield', e, atoms)
        if isinstance(e, ast.Await):
            atoms = self.ev(e.value, atoms, out)
            for a in atoms:
                if self.c.may_raise(e, a, self, self.func):
                    out.exc.add(a)
            return self.each('await', e, atoms)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                atoms = self.ev(c, atoms, out)
        return atoms

    def call(self, e: ast.Call, atoms, out: Out) -> Set:
        if isinstance(e.func, ast.Attribute):
            atoms = self.ev(e.func.value, atoms, out)
        elif not isinstance(e.func, ast.Name):
            atoms = self.ev(e.func, atoms, out)
        for a in e.args:
            atoms = self.ev(a.value if isinstance(a, ast.Starred) else a, atoms, out)
        for k in e.keywords:
            atoms = self.ev(k.value, atoms, out)
        res = set()
        for a in atoms:
            f = self.c.target(e, a, self, self.func) if len(self.stack) < self.c.max_depth else None
            if f is not None and f not in self.stack:
                self.calls.append(e)
                try:
                    o = self.inline(f, e, a)
                finally:
                    self.calls.pop()
                r = {self.c.unbind(f, e, x, a, self, self.func) for x in o.ret}
                out.exc |= {self.c.unbind(f, e, x, a, self, self.func) for x in o.exc}
                res |= r
                continue
            if self.c.may_raise(e, a, self, self.func):
                out.exc |= set(self.c.raised(e, a, self, self.func))
            res |= set(self.c.event('call', e, a, self, self.func))
        return res

    def inline(self, f: Func, e: ast.Call, a) -> Out:
        start = self.c.bind(f, e, a, self, self.func)
        k = (id(f.node), start)
        if k in self.memo:
            return self.memo[k]
        o = self.run(f, [start])
        self.memo[k] = o
        return o
