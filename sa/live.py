"""Live variables (backward, syntax directed): for every statement of a function, the local names that
may still be read after it."""
from __future__ import annotations
import ast
from typing import Dict, FrozenSet, Set

from .src import FUNC

EMPTY: FrozenSet[str] = frozenset()


def reads(node) -> Set[str]:
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def stores(node) -> Set[str]:
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


class Liveness:
    def __init__(self, fnode):
        self.out: Dict[int, FrozenSet[str]] = {}     # id(stmt) -> live after
        self.head: Dict[int, FrozenSet[str]] = {}    # id(loop) -> live at loop head
        always = set()
        if isinstance(fnode, ast.Lambda):
            self.always = frozenset()
            return
        stack = list(fnode.body)
        while stack:
            n = stack.pop()
            if isinstance(n, FUNC + (ast.Lambda, ast.ClassDef)):
                always |= reads(n)
                for m in ast.walk(n):
                    if isinstance(m, ast.Nonlocal):
                        always |= set(m.names)
            elif isinstance(n, (ast.Nonlocal, ast.Global)):
                always |= set(n.names)
            stack.extend(ast.iter_child_nodes(n))
        if fnode.args.args:
            always.add(fnode.args.args[0].arg)
        elif fnode.args.posonlyargs:
            always.add(fnode.args.posonlyargs[0].arg)
        self.always = frozenset(always)
        self.block(fnode.body, EMPTY, EMPTY, EMPTY)

    def block(self, body, out, brk, cont) -> FrozenSet[str]:
        live = out
        for s in reversed(body):
            self.out[id(s)] = live if id(s) not in self.out else (self.out[id(s)] | live)
            live = self.stmt(s, live, brk, cont)
        return live

    def stmt(self, s, out, brk, cont) -> FrozenSet[str]:
        if isinstance(s, ast.Assign):
            r = reads(s.value)
            kill = set()
            for t in s.targets:
                r |= reads(t)
                if isinstance(t, ast.Name):
                    kill.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    kill |= {e.id for e in t.elts if isinstance(e, ast.Name)}
            return (out - kill) | r
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            kill = {s.target.id} if isinstance(s.target, ast.Name) else set()
            return (out - kill) | reads(s.value) | reads(s.target)
        if isinstance(s, ast.AugAssign):
            return out | reads(s.value) | reads(s.target) | stores(s.target)
        if isinstance(s, ast.If):
            a = self.block(s.body, out, brk, cont)
            b = self.block(s.orelse, out, brk, cont) if s.orelse else out
            return (a | b | reads(s.test))
        if isinstance(s, ast.While):
            after = self.block(s.orelse, out, brk, cont) if s.orelse else out
            head = after | reads(s.test)
            while True:
                b = self.block(s.body, head, out, head)
                n = head | b
                if n == head:
                    break
                head = n
            self.head[id(s)] = head
            return head
        if isinstance(s, (ast.For, ast.AsyncFor)):
            after = self.block(s.orelse, out, brk, cont) if s.orelse else out
            head = after
            tgt = stores(s.target)
            while True:
                b = self.block(s.body, head, out, head)
                n = head | (b - (tgt if isinstance(s.target, (ast.Name, ast.Tuple)) else EMPTY)) \
                    | reads(s.target)
                if n == head:
                    break
                head = n
            self.head[id(s)] = head
            return head | reads(s.iter)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b = self.block(s.body, out, brk, cont)
            r = set()
            for i in s.items:
                r |= reads(i.context_expr)
            return b | r
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            fin = self.block(s.finalbody, out, brk, cont) if s.finalbody else out
            allfin = fin | (brk | cont if s.finalbody else EMPTY)
            hs = EMPTY
            for h in s.handlers:
                hl = self.block(h.body, allfin, brk | fin, cont | fin)
                hs = hs | (hl - ({h.name} if h.name else set()))
            els = self.block(s.orelse, allfin, brk, cont) if s.orelse else fin
            extra = hs | (fin if s.finalbody else EMPTY)
            # a fault may occur after any statement of the body
            b = self.try_body(s.body, els, brk, cont, extra)
            return b | extra
        if isinstance(s, ast.Return):
            return frozenset(reads(s.value)) if s.value is not None else EMPTY
        if isinstance(s, ast.Raise):
            return frozenset(reads(s)) | EMPTY
        if isinstance(s, ast.Break):
            return brk
        if isinstance(s, ast.Continue):
            return cont
        if isinstance(s, FUNC):
            r = set()
            for d in s.decorator_list:
                r |= reads(d)
            return (out - {s.name}) | r
        return out | reads(s)

    def try_body(self, body, out, brk, cont, extra):
        live = out
        for s in reversed(body):
            self.out[id(s)] = (live | extra) | self.out.get(id(s), EMPTY)
            live = self.stmt(s, live | extra, brk | extra, cont | extra)
            self.mark(s, extra)
        return live

    def mark(self, s, extra):
        """names read by an enclosing handler stay live everywhere inside"""
        for n in ast.walk(s):
            if id(n) in self.out:
                self.out[id(n)] = self.out[id(n)] | extra
            if id(n) in self.head:
                self.head[id(n)] = self.head[id(n)] | extra
