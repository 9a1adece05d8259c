"""Name-based over-approximating call graph (methods: every method of that name unless the receiver's class
is known; functions passed as values count as called)."""
from __future__ import annotations
import ast
from typing import Dict, Iterable, List, Set

from .src import Index, Func, Class, FUNC, dotted, own_nodes, nested_funcs

NOISE = set()
for _t in (str, bytes, list, dict, set, tuple, int, float):
    NOISE.update(n for n in dir(_t))


class CallGraph:
    def __init__(self, ix: Index, modules: Iterable[str] = None, skip: Iterable[str] = ()):
        self.ix = ix
        self.modules = set(modules) if modules else None
        self.skip = set(skip)
        self._edges: Dict[int, List[Func]] = {}

    def inside(self, f: Func) -> bool:
        return self.modules is None or f.module.name in self.modules

    def edges(self, f: Func) -> List[Func]:
        k = id(f.node)
        if k not in self._edges:
            self._edges[k] = [g for g in self._compute(f) if self.inside(g) and g.qual not in self.skip
                              and g.name not in self.skip]
        return self._edges[k]

    def _compute(self, f: Func):
        ix = self.ix
        seen = set()
        res = []

        def add(g):
            if g is not None and id(g.node) not in seen:
                seen.add(id(g.node))
                res.append(g)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                add(ix.resolve_func(f.module, n.id))
                c = ix.find_class(f.module, n.id)
                if c is not None:
                    add(ix.lookup(c, '__init__'))
            elif isinstance(n, ast.Attribute):
                if isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls') and f.cls is not None:
                    own = ix.lookup(f.cls, n.attr)
                    if own is not None:
                        add(own)
                        for c in ix.subclasses(f.cls, strict=True):
                            add(c.methods.get(n.attr))
                        if isinstance(n.ctx, ast.Store):
                            add(ix.lookup_setter(f.cls, n.attr))
                        continue
                if isinstance(n.value, ast.Call) and dotted(n.value.func) == 'super' and f.cls is not None:
                    for c in ix.mro(f.cls)[1:]:
                        if n.attr in c.methods:
                            add(c.methods[n.attr])
                            break
                    continue
                d = dotted(n)
                if d and '.' in d:
                    head = d.split('.')[0]
                    c = ix.find_class(f.module, head)
                    if c is not None and d.count('.') == 1:
                        add(ix.lookup(c, n.attr))
                        continue
                if n.attr in NOISE:
                    continue
                for g in ix.methods_named(n.attr):
                    if isinstance(n.ctx, ast.Store):
                        continue
                    add(g)
                if isinstance(n.ctx, ast.Store):
                    for c in ix.all_classes():
                        if n.attr in c.setters:
                            add(c.setters[n.attr])
        return res

    def reach(self, roots: Iterable[Func]) -> List[Func]:
        seen: Set[int] = set()
        out: List[Func] = []
        work = list(roots)
        while work:
            f = work.pop()
            if id(f.node) in seen:
                continue
            seen.add(id(f.node))
            out.append(f)
            work.extend(self.edges(f))
        return out
