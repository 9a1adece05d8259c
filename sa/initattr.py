"""Which attributes an object has when its constructor has returned (must-analysis over the constructor and what it calls)."""
from __future__ import annotations
import ast
from typing import Dict, List, Optional, Set

from sa.src import Index, Class, Func, FUNC

ALL = None      # "everything" (a path that does not return)


def meet(a, b):
    if a is ALL:
        return b
    if b is ALL:
        return a
    return a & b


class Constructed:
    def __init__(self, ix: Index, cls: Class):
        self.ix, self.cls = ix, cls
        self.stack: List = []
        self.unknown = False        # attributes are set under computed names

    def attributes(self) -> Set[str]:
        res: Set[str] = set()
        for nm in ('__new__', '__init__'):
            g = self.ix.lookup(self.cls, nm)
            if g is not None:
                r = self.function(g, new=nm == '__new__')
                res |= r or set()
        return res

    def function(self, f: Func, new=False):
        if any(f.node is x for x in self.stack) or len(self.stack) > 12 or not f.params():
            return set()
        self.stack.append(f.node)
        objs = {f.params()[0]} if not new else set()
        if new:     # obj = cls.__new__(..) / super().__new__(..)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and '__new__' in ast.dump(n.value.func):
                    objs |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        self.exits: List
        saved = getattr(self, 'exits', None)
        self.exits = []
        end = self.block(f, f.node.body, frozenset(), objs)
        r = end
        for e in self.exits:
            r = meet(r, e)
        self.exits = saved
        self.stack.pop()
        return set(r) if r is not ALL else set()

    def block(self, f, body, have, objs):
        for st in body:
            if have is ALL:
                return ALL
            have = self.stmt(f, st, have, objs)
        return have

    def expr(self, f, e, have, objs):
        """attributes that calls in an expression set"""
        if e is None or have is ALL:
            return have
        res = set(have)
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) and n.value.id in objs \
                    or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('vars', 'setattr') and n.args \
                    and isinstance(n.args[0], ast.Name) and n.args[0].id in objs \
                    and not (len(n.args) > 1 and isinstance(n.args[1], ast.Constant)):
                self.unknown = True
            if isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Attribute):
                res.add(n.target.attr)
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            g = None
            if isinstance(fn, ast.Attribute):
                v = fn.value
                if isinstance(v, ast.Name) and v.id in objs:
                    g = self.ix.lookup(self.cls, fn.attr)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
                    c = f.cls
                    if v.args and isinstance(v.args[0], ast.Name):
                        c = self.ix.find_class(f.module, v.args[0].id) or c
                    g = self.ix.lookup_super(self.cls, c, fn.attr)
                elif isinstance(v, ast.Name) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in objs:
                    c = self.ix.find_class(f.module, v.id)
                    g = self.ix.lookup(c, fn.attr) if c is not None else None
            elif isinstance(fn, ast.Name) and fn.id == 'setattr' and len(n.args) > 2 and isinstance(n.args[0], ast.Name) \
                    and n.args[0].id in objs and isinstance(n.args[1], ast.Constant):
                res.add(n.args[1].value)
            elif isinstance(fn, ast.Name) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in objs:
                h = self.ix.resolve_func(f.module, fn.id)
                if h is not None:
                    g = h
            if g is not None and not g.is_static:
                res |= self.function(g)
        return frozenset(res)

    def store(self, f, t, have, objs):
        res = set(have)
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in objs:
                res.add(x.attr)
                for k in self.ix.mro(self.cls):
                    if x.attr in k.setters:
                        res |= self.function(k.setters[x.attr])
                        break
        return frozenset(res)

    def stmt(self, f, st, have, objs):
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            have = self.expr(f, st.value, have, objs)
            if isinstance(st, ast.AnnAssign) and st.value is None:
                return have
            for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                have = self.store(f, t, have, objs)
            return have
        if isinstance(st, ast.Expr):
            return self.expr(f, st.value, have, objs)
        if isinstance(st, ast.Return):
            self.exits.append(self.expr(f, st.value, have, objs))
            return ALL
        if isinstance(st, ast.Raise):
            return ALL
        if isinstance(st, ast.If):
            have = self.expr(f, st.test, have, objs)
            t = st.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.Eq)) \
                    and any(isinstance(x, ast.Name) and x.id in objs for x in (t.left, t.comparators[0])):
                # the object is another one, that has been constructed before
                n = len(self.exits)
                self.block(f, st.body, have, objs)
                del self.exits[n:]
                return self.block(f, st.orelse, have, objs)
            return meet(self.block(f, st.body, have, objs), self.block(f, st.orelse, have, objs))
        if isinstance(st, (ast.For, ast.While)):
            if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value:
                self.block(f, st.body, have, objs)
                return have
            e = self.expr(f, st.iter if isinstance(st, ast.For) else st.test, have, objs)
            self.block(f, st.body, e, objs)
            return self.block(f, st.orelse, e, objs)
        if isinstance(st, ast.With):
            for i in st.items:
                have = self.expr(f, i.context_expr, have, objs)
                if i.optional_vars is not None:
                    have = self.store(f, i.optional_vars, have, objs)
            return self.block(f, st.body, have, objs)
        if isinstance(st, ast.Try):
            b = self.block(f, st.body, have, objs)
            b = self.block(f, st.orelse, b, objs) if b is not ALL else ALL
            for h in st.handlers:
                b = meet(b, self.block(f, h.body, have, objs))
            if st.finalbody:
                fin = self.block(f, st.finalbody, have, objs)
                if fin is ALL:
                    return ALL
                b = b | fin if b is not ALL else ALL
            return b
        if isinstance(st, ast.Assert):
            return self.expr(f, st.test, have, objs)
        if isinstance(st, getattr(ast, 'Match', ())):
            r = have
            for c in st.cases:
                self.block(f, c.body, have, objs)
            return r
        if isinstance(st, ast.Delete):
            gone = {x.attr for t in st.targets for x in [t] if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
                    and x.value.id in objs}
            return frozenset(have - gone)
        return have
