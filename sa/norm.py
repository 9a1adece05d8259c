"""Normal forms of the syntax tree: spellings that mean the same are made the same before anything is analysed.

 - comparisons with the constant on the left are turned round, `not (a is b)` becomes `a is not b` (likewise in, ==)
 - negations in tests are pushed inwards (De Morgan), double negations vanish
 - `v = E; if v:` / `v = E; return v` / `v = E; for x in v:` become `if E:` / `return E` / `for x in E:` if v is not used anywhere else
 - `while True: if T: break; …` becomes `while not T: …`
Positions (lines) of the original nodes are kept."""
from __future__ import annotations
import ast
from typing import Dict, List

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
TURN = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq,
        ast.Is: ast.Is, ast.IsNot: ast.IsNot}
NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq}
SCOPES = FUNC + (ast.Lambda, ast.ClassDef)


def const_like(e) -> bool:
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return const_like(e.operand)
    if isinstance(e, ast.Tuple):
        return all(const_like(x) for x in e.elts)
    if isinstance(e, ast.Name):
        return e.id.isupper()
    return isinstance(e, ast.Constant)


class Expr(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and const_like(n.left) and not const_like(n.comparators[0]) and type(n.ops[0]) in TURN:
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops[0] = TURN[type(n.ops[0])]()
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            e = n.operand
            if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NEG:
                return ast.copy_location(ast.Compare(left=e.left, ops=[NEG[type(e.ops[0])]()],
                                                     comparators=e.comparators), n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = test(n.test)
        return n

    visit_While = visit_Assert = visit_IfExp = visit_If

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.ifs = [test(x) for x in n.ifs]
        return n


def test(e):
    """an expression of which only the truth matters"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return negated(e.operand, e)
    if isinstance(e, ast.BoolOp):
        e.values = [test(v) for v in e.values]
        return flat(e)
    return e


def flat(e: ast.BoolOp):
    vals = []
    for v in e.values:
        if isinstance(v, ast.BoolOp) and type(v.op) is type(e.op):
            vals.extend(v.values)
        else:
            vals.append(v)
    e.values = vals
    return e


def negated(e, at):
    """not e"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return test(e.operand)
    if isinstance(e, ast.BoolOp):
        op = ast.Or() if isinstance(e.op, ast.And) else ast.And()
        return flat(ast.copy_location(ast.BoolOp(op=op, values=[negated(v, v) for v in e.values]), e))
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NEG:
        return ast.copy_location(ast.Compare(left=e.left, ops=[NEG[type(e.ops[0])]()], comparators=e.comparators), e)
    return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=e), at)


def blocks(f):
    """the statement lists of a function, without those of functions nested in it"""
    todo = [f]
    while todo:
        n = todo.pop()
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, SCOPES):
                todo.append(c)


def pure(e) -> bool:
    return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(e))


def place(s, v: str, value):
    """puts value in the place of the name v in the statement s, if it is used as a test or result there"""
    def put(e, first):
        if isinstance(e, ast.Name) and e.id == v and isinstance(e.ctx, ast.Load):
            return value if first or pure(value) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = put(e.operand, first)
            if r is not None:
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r), e)
        if isinstance(e, ast.BoolOp):
            for i, x in enumerate(e.values):
                r = put(x, first and i == 0)
                if r is not None:
                    return ast.copy_location(ast.BoolOp(op=e.op, values=e.values[:i] + [r] + e.values[i + 1:]), e)
        return None
    if isinstance(s, ast.If):
        return put(s.test, True)
    if isinstance(s, ast.For):
        return value if isinstance(s.iter, ast.Name) and s.iter.id == v else None
    if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == v:
        return value
    c = first_argument(s)
    if c is not None and c.args[0].id == v and isinstance(value, ast.Call):
        return value
    return None


def first_argument(s):
    """the call f(v, …) that a simple statement consists of"""
    c = getattr(s, 'value', None)
    if isinstance(s, (ast.Return, ast.Expr, ast.Assign)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Name) \
            and c.args and isinstance(c.args[0], ast.Name):
        return c
    return None


def header(s):
    if first_argument(s) is not None:
        return s
    return s.test if isinstance(s, ast.If) else s.value if isinstance(s, ast.Return) else \
        s.iter if isinstance(s, ast.For) else None


def temporaries(f):
    loads: Dict[str, int] = {}
    stores: Dict[str, int] = {}
    skip = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name):
            d = loads if isinstance(n.ctx, ast.Load) else stores
            d[n.id] = d.get(n.id, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            skip.update(n.names)
        elif isinstance(n, SCOPES) and n is not f:
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    skip.add(x.id)
        elif isinstance(n, (ast.AugAssign, ast.For, ast.Delete)) and isinstance(getattr(n, 'target', None), ast.Name):
            skip.add(n.target.id)
    for a in ast.walk(f.args):
        if isinstance(a, ast.arg):
            skip.add(a.arg)
    pairs: Dict[str, List] = {}
    for b in blocks(f):
        for i in range(len(b) - 1):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.targets[0].id
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                v = s.target.id
            else:
                continue
            if v in skip or loads.get(v, 0) != stores.get(v, 0):
                continue
            h = header(b[i + 1])
            if h is None or sum(1 for x in ast.walk(h) if isinstance(x, ast.Name) and x.id == v) != 1:
                continue
            pairs.setdefault(v, []).append((b, s, b[i + 1]))
    for v, ps in pairs.items():
        if len(ps) != stores[v]:
            continue
        new = [place(t, v, s.value) for _, s, t in ps]
        if any(x is None for x in new):
            continue
        for (b, s, t), x in zip(ps, new):
            if isinstance(t, ast.If):
                t.test = test(x)
            elif isinstance(t, ast.For):
                t.iter = x
            elif first_argument(t) is not None:
                t.value.args[0] = x
            else:
                t.value = x
            b.remove(s)


def loops(f):
    for b in blocks(f):
        for s in b:
            while isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not s.orelse \
                    and len(s.body) > 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse \
                    and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break):
                i = s.body.pop(0)
                s.test = negated(i.test, i.test)


def normalise(tree: ast.Module) -> ast.Module:
    tree = Expr().visit(tree)
    for n in ast.walk(tree):
        if isinstance(n, FUNC):
            temporaries(n)
            loops(n)
    ast.fix_missing_locations(tree)
    return tree


# -- private helpers that are called at one place only, as the last thing a function does --------------------

def _bound(f):
    a = f.args
    b = {x.arg for x in ast.walk(a) if isinstance(x, ast.arg)}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            b.add(x.id)
        elif isinstance(x, FUNC + (ast.ClassDef,)) and x is not f:
            b.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            b.update((al.asname or al.name).split('.')[0] for al in x.names)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            b.add(x.name)
    return b


def _read(f):
    return {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def _mapping(g, call, method: bool, owner):
    """parameter of g -> name at the call; None if they do not correspond one to one"""
    a = g.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    m = {}
    args = list(call.args)
    if method:
        if not ps:
            return None
        m[ps[0]] = call.func.value.id
        ps = ps[1:]
    kw = {x.arg for x in a.kwonlyargs}
    for x in args:
        if isinstance(x, ast.Starred):
            if ps or a.vararg is None or not isinstance(x.value, ast.Name):
                return None
            m[a.vararg.arg] = x.value.id
        elif not isinstance(x, ast.Name) or not ps:
            return None
        else:
            m[ps.pop(0)] = x.id
    for k in call.keywords:
        if not isinstance(k.value, ast.Name):
            return None
        if k.arg is None:
            if a.kwarg is None:
                return None
            m[a.kwarg.arg] = k.value.id
        elif k.arg in kw:
            kw.discard(k.arg)
            m[k.arg] = k.value.id
        elif k.arg in ps:
            ps.remove(k.arg)
            m[k.arg] = k.value.id
        else:
            return None
    if ps or kw or a.vararg and a.vararg.arg not in m or a.kwarg and a.kwarg.arg not in m \
            or len(set(m.values())) != len(m):
        return None
    return m


def inline_tails(tree: ast.Module, elsewhere=lambda name: False) -> ast.Module:
    for _ in range(3):
        if not _inline_once(tree, elsewhere):
            break
    ast.fix_missing_locations(tree)
    return tree


def _inline_once(tree, elsewhere) -> bool:
    refs: Dict[str, int] = {}
    defs: Dict[str, List] = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            refs[n.id] = refs.get(n.id, 0) + 1
        elif isinstance(n, ast.Attribute):
            refs['.' + n.attr] = refs.get('.' + n.attr, 0) + 1
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 80:
            for k in (n.value, '.' + n.value):
                refs[k] = refs.get(k, 0) + 1
        if isinstance(n, (ast.Module, ast.ClassDef)):
            for f in n.body:
                if isinstance(f, FUNC):
                    defs.setdefault(f.name if n is tree else '.' + f.name, []).append((n, f))
    done = False
    for n in [tree] + [c for c in tree.body if isinstance(c, ast.ClassDef)]:
        for f in list(n.body):
            if not isinstance(f, ast.FunctionDef) or f not in n.body:
                continue
            for b in blocks(f):
                s = b[-1]
                if not (isinstance(s, ast.Return) and isinstance(s.value, ast.Call)):
                    continue
                fn = s.value.func
                method = isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self'
                name = fn.attr if method else fn.id if isinstance(fn, ast.Name) else ''
                key = '.' + name if method else name
                if not name.startswith('_') or name.startswith('__') or refs.get(key) != 1 \
                        or len(defs.get(key, ())) != 1:
                    continue
                home, g = defs[key][0]
                if g is f or home is not (n if method else tree) or not isinstance(g, ast.FunctionDef) \
                        or g.decorator_list or elsewhere(name):
                    continue
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in list(ast.walk(g)) + list(ast.walk(f))):
                    continue
                if any(isinstance(x, ast.Global) and x not in g.body
                       for x in list(ast.walk(g)) + list(ast.walk(f))):
                    continue
                m = _mapping(g, s.value, method, home)
                if m is None:
                    continue
                fb, gb = _bound(f), _bound(g)
                shared = {v for x in g.body if isinstance(x, ast.Global) for v in x.names}
                gb -= shared
                if shared & (fb | _read(f)):
                    continue
                moved = {p for p in m if m[p] != p}
                if moved and any(isinstance(x, SCOPES) for x in ast.walk(g) if x is not g):
                    continue
                local = gb - set(m)
                rest = _read(f)
                if (_read(g) - gb) & fb or local & ((rest - fb) | set(m.values())) or set(m.values()) - fb:
                    continue
                if any(isinstance(x, (ast.Try, ast.With)) for x in ast.walk(f)) and any(
                        isinstance(x, ast.Name) and x.id in m and isinstance(x.ctx, ast.Store) for x in ast.walk(g)):
                    continue
                body = g.body
                if len(body) > 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    body = body[1:]
                for x in [y for st in body for y in ast.walk(st)]:
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]
                if not isinstance(body[-1], (ast.Return, ast.Raise)):
                    body = body + [ast.copy_location(ast.Return(value=None), body[-1])] \
                        if b is not f.body else body
                b[-1:] = body
                if home is tree or home is n:
                    home.body.remove(g)
                done = True
                refs[key] = 0
                break
    return done
