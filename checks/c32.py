"""C32: configuration variables exist, hold allowed values only, and every allowed value is understood."""
from __future__ import annotations
import ast
import os
import re
from typing import Dict, List, Optional, Set, Tuple

from sa.src import Index, Module, Func, FUNC, dotted, unparse, nested_funcs, own_nodes, AnalysisError
from sa.flow import Flow, Client

EXPLANATION = (
    'The table of presets and allowed values is read from configuration.py. Over all functions of the package a '
    'finite-set constant propagation computes which configuration variable (and which of its allowed values) an '
    'expression can hold - through locals, attributes, dictionary fields, helpers, string methods and branches. '
    'Checked: keys exist; presets and literal assignments are allowed and of the type of the preset; a value is '
    'compared only with literals it can have; no allowed value ends in the "unknown value" error of a dispatch; '
    'a plain text value is not iterated. A path-sensitive analysis of configuration.py shows that every store is '
    'preceded by the validation of the same key and value, that presets are read and changed only while opened, '
    'that a changed preset is marked for propagation, that a preset never replaces a value of the thread, and '
    'that validate_value rejects whatever is outside the table.')
ASSUMPTIONS = ['values of configuration variables whose range is not restricted by the table are not judged']

TOP = ('top',)
SOFT = ('soft',)
T = frozenset
TOPS = T({TOP})
READS = {'get_config_value', 'get_preset_value'}
WRITES = {'set_config_value', 'set_preset_value'}
RAISED = {'ValueError', 'AssertionError', 'KeyError', 'TypeError', 'NotImplementedError', 'LookupError',
          'RuntimeError', 'Exception'}
MAXSET = 64
STRM = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'casefold', 'title', 'capitalize', 'replace', 'removeprefix',
        'removesuffix', 'startswith', 'endswith', 'find', 'count', 'isalnum', 'isdigit'}


def last(e):
    d = dotted(e)
    return d.split('.')[-1] if d else (e.attr if isinstance(e, ast.Attribute) else None)


def kind_of(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, (int, float)):
        return 'number'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, (set, frozenset, list, tuple)):
        return 'collection'
    return type(v).__name__


class Table:
    """presets, allowed values and renamed keys of configuration.py"""

    def __init__(self, ix: Index, rep):
        m = ix.module('configuration')
        self.m = m
        self.names: Dict[str, object] = {}
        self.presets: Dict[str, object] = {}
        self.allowed: Dict[str, object] = {}
        self.renamed: Dict[str, str] = {}
        self.line: Dict[str, int] = {}
        for st in m.tree.body:
            self.stmt(st)
        if len(self.presets) < 30:
            raise AnalysisError('the table of presets in configuration.py could not be read')

    def stmt(self, st):
        if isinstance(st, (ast.If, ast.Try, ast.With)):
            for b in ('body', 'orelse', 'finalbody'):
                for s in getattr(st, b, []):
                    self.stmt(s)
            return
        if isinstance(st, ast.AnnAssign) and st.value is not None:
            targets, value = [st.target], st.value
        elif isinstance(st, ast.Assign):
            targets, value = st.targets, st.value
        elif isinstance(st, ast.For):
            it = self.ev(st.iter)
            if isinstance(it, (tuple, list, frozenset, set)) and isinstance(st.target, ast.Name):
                for x in it:
                    self.names[st.target.id] = x
                    for s in st.body:
                        self.stmt(s)
            return
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                and st.value.func.attr == 'update' and len(st.value.args) == 1:
            d = dotted(st.value.func.value)
            v = self.ev(st.value.args[0])
            if isinstance(v, dict) and d in ('CONFIG_PRESET', 'ALLOWED_PRESET_VALUES', 'RENAMED_KEYS'):
                for k, x in v.items():
                    self.put(d, k, x, st.lineno)
            return
        else:
            return
        v = self.ev(value)
        for t in targets:
            if isinstance(t, ast.Name):
                self.names[t.id] = v
                if isinstance(v, dict) and t.id in ('CONFIG_PRESET', 'ALLOWED_PRESET_VALUES', 'RENAMED_KEYS'):
                    for k, x in v.items():
                        self.put(t.id, k, x, st.lineno)
            elif isinstance(t, ast.Subscript):
                d = dotted(t.value)
                k = self.ev(t.slice)
                if isinstance(k, str):
                    self.put(d, k, v, st.lineno)

    def put(self, d, k, v, line):
        if d == 'CONFIG_PRESET':
            self.presets[k] = v
            self.line[k] = line
        elif d == 'ALLOWED_PRESET_VALUES':
            self.allowed[k] = v
            self.line.setdefault('allowed ' + k, line)
        elif d == 'RENAMED_KEYS':
            self.renamed[k] = v

    def ev(self, e):
        """constant expressions; Unknown otherwise"""
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.names.get(e.id, Unknown)
        if isinstance(e, (ast.Set, ast.Tuple, ast.List)):
            vs = []
            for x in e.elts:
                v = self.ev(x.value) if isinstance(x, ast.Starred) else self.ev(x)
                if v is Unknown:
                    return Unknown
                vs.extend(v if isinstance(x, ast.Starred) else [v])
            return {ast.Set: frozenset, ast.Tuple: tuple, ast.List: list}[type(e)](vs)
        if isinstance(e, ast.Dict):
            return {self.ev(k): self.ev(v) for k, v in zip(e.keys, e.values) if k is not None}
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            if a is Unknown or b is Unknown:
                return Unknown
            try:
                return {ast.BitOr: lambda: a | b, ast.Sub: lambda: a - b, ast.BitAnd: lambda: a & b,
                        ast.Add: lambda: a + b, ast.Mult: lambda: a * b,
                        ast.Pow: lambda: a ** b if abs(b) < 64 else Unknown}[type(e.op)]()
            except (KeyError, TypeError):
                return Unknown
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            a = self.ev(e.operand)
            return Unknown if a is Unknown else -a
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords \
                and e.func.id in ('frozenset', 'set', 'dict', 'tuple', 'list', 'sorted', 'str', 'int', 'bool'):
            args = [self.ev(a) for a in e.args]
            if any(a is Unknown for a in args):
                return Unknown
            try:
                v = {'frozenset': frozenset, 'set': frozenset, 'dict': dict, 'tuple': tuple, 'list': list,
                     'sorted': sorted, 'str': str, 'int': int, 'bool': bool}[e.func.id](*args)
                return v
            except (TypeError, ValueError):
                return Unknown
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'difference') \
                and not e.keywords:
            a = self.ev(e.func.value)
            bs = [self.ev(x) for x in e.args]
            if a is not Unknown and isinstance(a, frozenset) and all(b is not Unknown for b in bs):
                return a.union(*bs) if e.func.attr == 'union' else a.difference(*bs)
        return Unknown

    def scalar_values(self, k):
        a = self.allowed.get(k)
        if isinstance(a, frozenset) and kind_of(self.presets.get(k)) == 'str':
            return a
        return None

    def is_coll(self, k):
        return isinstance(self.allowed.get(k), frozenset) and kind_of(self.presets.get(k)) == 'collection'

    def permits(self, k, v) -> bool:
        a = self.allowed.get(k)
        if not a or v is Unknown or a is Unknown:
            return True
        if isinstance(a, tuple):
            return isinstance(v, (int, float)) and a[0] <= v <= a[1]
        if isinstance(v, (set, frozenset, list, tuple)):
            return all(x in a for x in v)
        try:
            return v in a
        except TypeError:
            return False


class _U:
    def __repr__(self):
        return 'Unknown'


Unknown = _U()


class Env:
    __slots__ = ('cur', 'full')

    def __init__(self, cur=None, full=None):
        self.cur: Dict[str, frozenset] = dict(cur or {})
        self.full: Dict[str, frozenset] = dict(full or {})

    def copy(self):
        return Env(self.cur, self.full)

    def set(self, name, v):
        self.cur[name] = v
        self.full[name] = v


def cut(s):
    return s if len(s) <= MAXSET else TOPS


def join(a: Optional[Env], b: Optional[Env]) -> Optional[Env]:
    if a is None:
        return b
    if b is None:
        return a
    r = Env()
    for f in ('cur', 'full'):
        x, y, z = getattr(a, f), getattr(b, f), getattr(r, f)
        for k in x.keys() | y.keys():
            if k in x and k in y:
                z[k] = cut(x[k] | y[k])
            else:
                z[k] = x.get(k) or y.get(k)     # unassigned on the other path
    return r


class Walker:
    def __init__(self, ix, rep, tab: Table, extra: List[Module]):
        self.ix, self.rep, self.tab = ix, rep, tab
        self.attrs: Dict[str, frozenset] = {}
        self.fields: Dict[str, frozenset] = {}
        self.judging = False
        self.memo: Dict = {}
        self.stack: List = []
        self.seen: Set = set()
        self.ment: Dict = {}
        self.extra = extra

    # -- reporting ---------------------------------------------------------------------

    def site(self, kind, node):
        k = (kind, id(node))
        if k not in self.seen:
            self.seen.add(k)
            self.rep.count(kind)
            self.rep.ok()

    def where(self, func, node):
        return f'{func.module.rel}:{getattr(node, "lineno", 0)} {func.qual}'

    def bad(self, rule, construct, func, node, msg):
        if self.judging:
            self.rep.violation(rule, construct, self.where(func, node), msg)

    # -- functions ----------------------------------------------------------------------

    def mentions(self, f: Func) -> bool:
        r = self.ment.get(id(f.node))
        if r is None:
            r = False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and last(n.func) in READS | WRITES or \
                        isinstance(n, ast.Subscript) and last(n.value) == 'CONFIG_PRESET' or \
                        isinstance(n, ast.Attribute) and any(x[0] in ('v', 'coll') and x[-1] is not None
                                                             for x in self.attrs.get(n.attr, ())):
                    r = True
                    break
            self.ment[id(f.node)] = r
        return r

    def run(self, f: Func, args: Dict[str, frozenset], outer: Optional[Env] = None) -> frozenset:
        key = (id(f.node), tuple(sorted((k, v) for k, v in args.items() if v != TOPS)), self.judging) \
            if outer is None else None
        if key is not None and key in self.memo:
            return self.memo[key]
        if len(self.stack) > 5 or any(n is f.node for n, _, _ in self.stack):
            return TOPS
        if key is not None:
            self.memo[key] = TOPS
        env = outer.copy() if outer else Env()
        for p in f.all_params():
            env.set(p, args.get(p, TOPS))
        rets: List = []
        self.stack.append((f.node, f, rets))
        try:
            end = self.block(f.node.body, env, f)
        finally:
            self.stack.pop()
        res = frozenset().union(*rets) if rets else frozenset()
        if end is not None:
            res |= {('v', None, None)}
        res = cut(res) or TOPS
        if key is not None:
            self.memo[key] = res
        return res

    # -- statements ---------------------------------------------------------------------

    def block(self, body, env: Optional[Env], f: Func) -> Optional[Env]:
        prev = None
        for st in body:
            if env is None:
                return None
            if isinstance(st, (ast.Raise, ast.Assert)):
                self.dead_end(st, env, f, prev)
            env = self.stmt(st, env, f)
            prev = st
        return env

    tests: List = []

    def dead_end(self, st, env, f, prev):
        """an allowed value must not reach the 'unknown value' error"""
        if isinstance(st, ast.Raise):
            if not isinstance(st.exc, ast.Call) or last(st.exc.func) not in RAISED:
                return
            tested = set()
            if self.tests:
                tested |= self.tests[-1]
            if isinstance(prev, (ast.If, ast.Match)):
                tested |= {n.id for n in ast.walk(prev.test if isinstance(prev, ast.If) else prev.subject)
                           if isinstance(n, ast.Name)}
            for v in tested:
                cur, full = env.cur.get(v), env.full.get(v)
                if not cur or full is None or not cur < full:
                    continue
                self.site('unknown_value_errors', st)
                left = sorted({(x[2], str(x[1])) for x in cur if x[0] == 'v' and x[2] is not None})
                for k, val in left:
                    self.bad('value-not-handled', f'{f.qual} {k}={val}', f, st,
                             f'{f.qual} rejects the allowed value {val!r} of the configuration variable "{k}"')
        else:
            for v in {n.id for n in ast.walk(st.test) if isinstance(n, ast.Name)}:
                cur = env.cur.get(v)
                if not cur:
                    continue
                left = set()
                some = False
                for x in cur:
                    if x[0] == 'v' and x[2] is not None:
                        some = True
                        e2 = env.copy()
                        e2.cur[v] = T({x})
                        if self.truth(st.test, e2, f) == {False}:
                            left.add((x[2], str(x[1])))
                if some:
                    self.site('unknown_value_errors', st)
                for k, val in sorted(left):
                    self.bad('value-not-handled', f'{f.qual} {k}={val}', f, st,
                             f'the assertion in {f.qual} fails for the allowed value {val!r} of the '
                             f'configuration variable "{k}"')

    def branch(self, test, body, env, f, truth):
        e = self.narrow(test, env, f, truth)
        if e is None:
            return None
        self.tests = self.tests + [{n.id for n in ast.walk(test) if isinstance(n, ast.Name)}]
        try:
            return self.block(body, e, f)
        finally:
            self.tests = self.tests[:-1]

    def stmt(self, st, env: Env, f: Func) -> Optional[Env]:
        if isinstance(st, FUNC):
            g = Func(st, f.module, None if f.outer or not f.cls else f.cls, f)
            env.set(st.name, T({('fn', id(st))}))
            tests, self.tests = self.tests, []
            inner = env.copy()
            for n in ast.walk(f.node):      # variables of the surrounding function set later on
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in inner.cur:
                    inner.set(n.id, TOPS)
            self.run(g, {}, inner)
            self.tests = tests
            return env
        if isinstance(st, ast.ClassDef):
            return env
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is None:
                return env
            v = self.ev(st.value, env, f)
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                self.assign(t, v, st.value, env, f)
            return env
        if isinstance(st, ast.AugAssign):
            self.ev(st.value, env, f)
            if isinstance(st.target, ast.Name):
                env.set(st.target.id, TOPS)
            elif isinstance(st.target, ast.Attribute):
                self.attrs[st.target.attr] = self.attrs.get(st.target.attr, T()) | TOPS
            return env
        if isinstance(st, ast.Expr):
            self.ev(st.value, env, f)
            return env
        if isinstance(st, ast.Return):
            v = self.ev(st.value, env, f) if st.value is not None else T({('v', None, None)})
            self.stack[-1][2].append(v)
            return None
        if isinstance(st, ast.Raise):
            if st.exc is not None:
                self.ev(st.exc, env, f)
            return None
        if isinstance(st, ast.Assert):
            self.truth(st.test, env, f)
            return self.narrow(st.test, env, f, True)
        if isinstance(st, ast.If):
            self.truth(st.test, env, f)
            a = self.branch(st.test, st.body, env, f, True)
            b = self.branch(st.test, st.orelse, env, f, False)
            return join(a, b)
        if isinstance(st, ast.Match):
            return self.match(st, env, f)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env, f)
            self.plain_text(it, st.iter, f)
            el = self.elements(it)
            cur = env
            for _ in range(3):
                e = cur.copy()
                self.assign(st.target, el, None, e, f)
                out = self.block(st.body, e, f)
                new = join(cur, out)
                if new.cur == cur.cur:
                    break
                cur = new
            if st.orelse:
                return self.block(st.orelse, cur, f)
            return cur
        if isinstance(st, ast.While):
            cur = env
            for _ in range(3):
                self.truth(st.test, cur, f)
                out = self.branch(st.test, st.body, cur.copy(), f, True)
                new = join(cur, out)
                if new.cur == cur.cur:
                    break
                cur = new
            return self.block(st.orelse, cur, f) if st.orelse else cur
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr, env, f)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, TOPS, None, env, f)
            return self.block(st.body, env, f)
        if isinstance(st, (ast.Try,)) or type(st).__name__ == 'TryStar':
            start = env.copy()
            out = self.block(st.body, env, f)
            mid = join(start, out)
            res = self.block(st.orelse, out, f) if out is not None and st.orelse else out
            # assignments made before the exception
            for n in ast.walk(ast.Module(st.body, [])):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in mid.cur:
                    mid.set(n.id, TOPS)
            for h in st.handlers:
                e = mid.copy()
                if h.name:
                    e.set(h.name, TOPS)
                res = join(res, self.block(h.body, e, f))
            if st.finalbody:
                if res is None:
                    self.block(st.finalbody, mid.copy(), f)
                    return None
                return self.block(st.finalbody, res, f)
            return res
        if isinstance(st, (ast.Break, ast.Continue)):
            return env      # joined with the state after the loop: over-approximation
        if isinstance(st, ast.Delete):
            return env
        for n in ast.iter_child_nodes(st):
            if isinstance(n, ast.expr):
                self.ev(n, env, f)
        return env

    def match(self, st, env, f):
        self.ev(st.subject, env, f)
        rest: Optional[Env] = env
        out = None
        for c in st.cases:
            if rest is None:
                break
            lits = self.pattern(c.pattern)
            if lits is None:
                out = join(out, self.guarded(c, rest.copy(), f, st))
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    rest = None
                continue
            test = ast.Compare(st.subject, [ast.In()], [ast.Tuple([ast.copy_location(ast.Constant(x), c.pattern)
                                                                   for x in lits], ast.Load())])
            ast.copy_location(test, c.pattern)
            self.truth(test, rest, f)
            e = self.narrow(test, rest, f, True)
            if e is not None:
                out = join(out, self.guarded(c, e, f, st))
            if c.guard is None:
                rest = self.narrow(test, rest, f, False)
        return join(out, rest)

    def guarded(self, c, e, f, st):
        self.tests = self.tests + [{n.id for n in ast.walk(st.subject) if isinstance(n, ast.Name)}]
        try:
            return self.block(c.body, e, f)
        finally:
            self.tests = self.tests[:-1]

    def pattern(self, p):
        if isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Constant):
            return [p.value.value]
        if isinstance(p, ast.MatchOr):
            r = []
            for q in p.patterns:
                x = self.pattern(q)
                if x is None:
                    return None
                r += x
            return r
        return None

    def assign(self, t, v, value, env, f):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            old = self.attrs.get(t.attr, T())
            if self.judging and any(x[0] in ('v', 'coll') and x[-1] is not None for x in old):
                key = next(x[-1] for x in old if x[0] in ('v', 'coll') and x[-1] is not None)
                for x in v:
                    c = self.concrete(x)
                    if c is Unknown or x[0] == 'v' and (x[2] is not None or not isinstance(c, str) or not c):
                        continue
                    self.site('configuration_writes', t)
                    if not self.tab.permits(key, c):
                        self.bad('value-not-allowed', f'{f.qual} {key}', f, t,
                                 f'{sorted(c) if isinstance(c, frozenset) else c!r} is not an allowed value of the '
                                 f'configuration variable "{key}"')
            self.attrs[t.attr] = cut(self.attrs.get(t.attr, T()) | v)
        elif isinstance(t, ast.Subscript):
            k = self.ev(t.slice, env, f)
            if last(t.value) == 'CONFIG_PRESET' and f.module.name != 'configuration':
                self.write(t, k, v, env, f, False)
                return
            for x in k:
                if x[0] == 'v' and isinstance(x[1], str):
                    self.fields[x[1]] = cut(self.fields.get(x[1], T()) | v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = None
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                vs = [self.ev(x, env, f) for x in value.elts]
            for i, x in enumerate(t.elts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, vs[i] if vs else TOPS, None, env, f)

    # -- expressions --------------------------------------------------------------------

    def elements(self, v: frozenset) -> frozenset:
        res = set()
        for x in v:
            if x[0] == 'set':
                res |= x[1]
            elif x[0] == 'coll':
                res |= {('v', a, x[1]) for a in self.tab.allowed[x[1]]}
            elif x[0] == 'v' and isinstance(x[1], (frozenset, tuple)):
                res |= {('v', a, x[2]) for a in x[1]}
            else:
                res.add(TOP)
        return cut(T(res)) or TOPS

    def plain_text(self, v, node, f):
        for x in v:
            if x[0] == 'v' and x[2] is not None and isinstance(x[1], str):
                self.site('iterated_values', node)
                self.bad('text-iterated', f'{f.qual} {x[2]}', f, node,
                         f'the plain text value of the configuration variable "{x[2]}" is iterated character by '
                         'character')
                return

    def config(self, k: frozenset, default, node, f) -> frozenset:
        res = set()
        for x in k:
            if x[0] == 'v' and isinstance(x[1], str):
                key = x[1]
                self.site('configuration_reads', node)
                if not self.known(key):
                    self.bad('unknown-key', f'{f.qual} {key}', f, node,
                             f'{f.qual} reads the configuration variable "{key}" that configuration.py does not '
                             'define')
                    res.add(TOP)
                    continue
                key = key if key in self.tab.presets else self.tab.renamed.get(key, key)
                vals = self.tab.scalar_values(key)
                if vals is not None:
                    res |= {('v', a, key) for a in vals}
                elif self.tab.is_coll(key):
                    res.add(('coll', key))
                else:
                    res.add(TOP)
            else:
                res.add(TOP)
        return cut(T(res)) or TOPS

    def known(self, key):
        return key in self.tab.presets or self.tab.renamed.get(key) in self.tab.presets or '.' in key or '{' in key

    def write(self, node, k, v, env, f, new_ok):
        for x in k:
            if x[0] != 'v' or not isinstance(x[1], str):
                continue
            key = x[1]
            self.site('configuration_writes', node)
            if not self.known(key):
                if not new_ok:
                    self.bad('unknown-key', f'{f.qual} {key}', f, node,
                             f'{f.qual} sets the configuration variable "{key}" that configuration.py does not '
                             'define')
                continue
            key = key if key in self.tab.presets else self.tab.renamed.get(key, key)
            if key not in self.tab.presets:
                continue
            for y in v:
                c = self.concrete(y)
                if c is Unknown or y[0] == 'coll' and y[1] == key or y[0] == 'v' and y[2] == key:
                    continue
                if y[0] == 'v' and y[2] is not None or y[0] == 'coll':
                    self.bad('value-not-allowed', f'{f.qual} {key}', f, node,
                             f'the value of the configuration variable "{y[-1]}" is stored in "{key}"')
                    continue
                if not self.tab.permits(key, c):
                    self.bad('value-not-allowed', f'{f.qual} {key}', f, node,
                             f'{c!r} is not an allowed value of the configuration variable "{key}"')
                    continue
                want, have = kind_of(self.tab.presets[key]), kind_of(c)
                if self.tab.presets[key] is Unknown or want == have or (want, have) == ('collection', 'str') \
                        and key in self.tab.allowed or (want, have) == ('number', 'bool') and False:
                    continue
                self.bad('value-not-allowed', f'{f.qual} {key}', f, node,
                         f'{c!r} is not of the type of the preset of the configuration variable "{key}" ({want})')

    def concrete(self, x):
        if x[0] == 'v':
            return x[1]
        if x[0] == 'set':
            vs = [self.concrete(y) for y in x[1]]
            return Unknown if any(v is Unknown for v in vs) else frozenset(vs)
        return Unknown

    def mod_const(self, f, name):
        m = f.module
        for _ in range(4):
            e = m.globals.get(name)
            if e is not None:
                return T({('v', e.value, None)}) if isinstance(e, ast.Constant) else \
                    self.lit(e) if isinstance(e, (ast.Tuple, ast.Set, ast.List)) else TOPS
            imp = m.imports.get(name)
            if imp and imp[0].startswith('DHParser') and imp[1] and imp[0].split('.')[-1] in self.ix.modules:
                m, name = self.ix.modules[imp[0].split('.')[-1]], imp[1]
                continue
            return TOPS
        return TOPS

    def lit(self, e):
        els = set()
        for x in e.elts:
            if not isinstance(x, ast.Constant):
                return TOPS
            els.add(('v', x.value, None))
        return T({('set', T(els))})

    def ev(self, e, env: Env, f: Func) -> frozenset:
        if isinstance(e, ast.Constant):
            return T({('v', e.value, None)}) if not isinstance(e.value, (bytes, float, complex)) \
                and e.value is not Ellipsis else TOPS
        if isinstance(e, ast.Name):
            v = env.cur.get(e.id)
            if v is not None:
                return v
            return self.mod_const(f, e.id)
        if isinstance(e, ast.Attribute):
            self.ev(e.value, env, f)
            v = self.attrs.get(e.attr)
            if v and any(x[-1] is not None and x[0] in ('v', 'coll') for x in v):
                return T(SOFT if x == TOP else x for x in v)
            return TOPS
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            els = set()
            for x in e.elts:
                els |= self.elements(self.ev(x.value, env, f)) if isinstance(x, ast.Starred) else self.ev(x, env, f)
            return T({('set', cut(T(els)))})
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                x = self.ev(v, env, f)
                if k is not None:
                    for y in self.ev(k, env, f):
                        if y[0] == 'v' and isinstance(y[1], str):
                            self.fields[y[1]] = cut(self.fields.get(y[1], T()) | x)
            return TOPS
        if isinstance(e, ast.IfExp):
            self.truth(e.test, env, f)
            res = T()
            for b, tr in ((e.body, True), (e.orelse, False)):
                n = self.narrow(e.test, env, f, tr)
                if n is not None:
                    res |= self.ev(b, n, f)
            return cut(res) or TOPS
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env, f)
            env.set(e.target.id, v)
            return v
        if isinstance(e, ast.BoolOp):
            res = T()
            cur = env
            for i, x in enumerate(e.values):
                v = self.ev(x, cur, f)
                if i < len(e.values) - 1:
                    want = isinstance(e.op, ast.Or)
                    res |= T(y for y in v if self.bool_of(y) is not (not want))
                    n = self.narrow(x, cur, f, not want)
                    if n is None:
                        return cut(res) or TOPS
                    cur = n
                else:
                    res |= v
            return cut(res) or TOPS
        if isinstance(e, (ast.Compare, ast.UnaryOp)) and not (isinstance(e, ast.UnaryOp)
                                                             and not isinstance(e.op, ast.Not)):
            return T(('v', x, None) for x in self.truth(e, env, f))
        if isinstance(e, ast.Subscript):
            if last(e.value) == 'ALLOWED_PRESET_VALUES':
                k = self.ev(e.slice, env, f)
                a = self.tab.allowed.get(next(iter(k))[1]) if len(k) == 1 and next(iter(k))[0] == 'v' else None
                return T({('set', T(('v', x, None) for x in a))}) if isinstance(a, frozenset) else TOPS
            if last(e.value) == 'CONFIG_PRESET' and isinstance(e.ctx, ast.Load):
                return self.config(self.ev(e.slice, env, f), None, e, f)
            b = self.ev(e.value, env, f)
            if isinstance(e.slice, ast.Slice):
                parts = [self.ev(x, env, f) if x is not None else None for x in
                         (e.slice.lower, e.slice.upper, e.slice.step)]
                ix_ = []
                for p in parts:
                    if p is None:
                        ix_.append(None)
                    elif len(p) == 1 and next(iter(p))[0] == 'v' and isinstance(next(iter(p))[1], int):
                        ix_.append(next(iter(p))[1])
                    else:
                        return TOPS
                return self.apply(b, lambda s: s[slice(*ix_)])
            k = self.ev(e.slice, env, f)
            if len(k) == 1 and next(iter(k))[0] == 'v':
                i = next(iter(k))[1]
                if isinstance(i, int):
                    return self.apply(b, lambda s: s[i])
                if isinstance(i, str):
                    v = self.fields.get(i)
                    if v and any(x[-1] is not None and x[0] in ('v', 'coll') for x in v):
                        return T(SOFT if x == TOP else x for x in v)
            return TOPS
        if isinstance(e, ast.Call):
            return self.call(e, env, f)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = env.copy()
            for g in e.generators:
                it = self.ev(g.iter, inner, f)
                self.plain_text(it, g.iter, f)
                self.assign(g.target, self.elements(it), None, inner, f)
                for c in g.ifs:
                    self.truth(c, inner, f)
                    n = self.narrow(c, inner, f, True)
                    inner = n if n is not None else inner
            if isinstance(e, ast.DictComp):
                self.ev(e.key, inner, f)
                self.ev(e.value, inner, f)
                return TOPS
            return T({('set', cut(self.ev(e.elt, inner, f)))})
        if isinstance(e, ast.Lambda):
            inner = env.copy()
            for a in e.args.posonlyargs + e.args.args + e.args.kwonlyargs:
                inner.set(a.arg, TOPS)
            self.ev(e.body, inner, f)
            return TOPS
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ev(n, env, f)
            elif isinstance(n, ast.FormattedValue):
                self.ev(n.value, env, f)
        return TOPS

    def apply(self, b, fn):
        res = set()
        for x in b:
            if x[0] == 'v' and isinstance(x[1], str):
                try:
                    r = fn(x[1])
                except Exception:
                    continue
                res.add(('v', r, x[2]) if isinstance(r, (str, bool, int)) else TOP)
            elif x == SOFT:
                res.add(SOFT)
            else:
                res.add(TOP)
        return cut(T(res)) or TOPS

    def call(self, e: ast.Call, env, f) -> frozenset:
        name = last(e.func)
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env, f) for a in e.args]
        kws = {k.arg: self.ev(k.value, env, f) for k in e.keywords}
        plain = isinstance(e.func, ast.Name) or isinstance(e.func, ast.Attribute) \
            and last(e.func.value) in ('configuration', 'DHParser')
        if name in READS and plain and f.qual not in READS:
            k = args[0] if args else kws.get('key', TOPS)
            return self.config(k, None, e, f)
        if name in WRITES and plain:
            k = args[0] if args else kws.get('key', TOPS)
            v = args[1] if len(args) > 1 else kws.get('value', TOPS)
            new = args[2] if len(args) > 2 else kws.get('allow_new_key')
            self.write(e, k, v, env, f, new is not None and new != T({('v', False, None)}))
            return TOPS
        if isinstance(e.func, ast.Attribute) and name in STRM:
            b = self.ev(e.func.value, env, f)
            cs = []
            for a in args:
                if len(a) != 1 or next(iter(a))[0] != 'v':
                    return TOPS
                cs.append(next(iter(a))[1])
            return self.apply(b, lambda s: getattr(s, name)(*cs))
        if isinstance(e.func, ast.Attribute):
            self.ev(e.func.value, env, f)
            if name == 'get' and e.args:
                b = T()
                for y in args[0]:
                    if y[0] == 'v' and isinstance(y[1], str):
                        b |= self.fields.get(y[1], T())
                if len(args) > 1:
                    b |= T(x for x in args[1])
                if any(x[-1] is not None and x[0] in ('v', 'coll') for x in b):
                    return cut(b | {SOFT})
        if isinstance(e.func, ast.Name) and name in ('frozenset', 'set', 'tuple', 'list', 'sorted') and len(args) == 1:
            self.plain_text(args[0], e, f)
            return T(('set', self.elements(T({x}))) if x[0] != 'coll' else x for x in args[0])
        if isinstance(e.func, ast.Name) and name == 'str' and len(args) == 1:
            return self.apply(args[0], str)
        g = None
        if isinstance(e.func, ast.Name):
            v = env.cur.get(name)
            if v and len(v) == 1 and next(iter(v))[0] == 'fn':
                node = next((n for n in ast.walk(f.node) if isinstance(n, FUNC) and id(n) == next(iter(v))[1]), None)
                if node is not None:
                    g = Func(node, f.module, None, f)
                    return self.inline(g, e, args, kws, env.copy(), False)
            if v is None:
                g = self.ix.resolve_func(f.module, name)
        elif isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Name) and e.func.value.id in ('self', 'cls') and f.cls:
                g = self.ix.lookup(f.cls, name)
            else:
                c = self.ix.methods_named(name)
                if len(c) == 1:
                    g = c[0]
        if g is None or isinstance(g.node, ast.AsyncFunctionDef) or g.module.name == 'configuration':
            return TOPS
        hot = any(x[0] in ('v', 'coll') and x[-1] is not None for a in list(args) + list(kws.values()) for x in a)
        if not hot and not self.mentions(g):
            return TOPS
        return self.inline(g, e, args, kws, None, g.is_method)

    def inline(self, g, e, args, kws, outer, method):
        if any(isinstance(d, (ast.Name, ast.Attribute)) and last(d) == 'contextmanager'
               for d in g.node.decorator_list):
            return TOPS
        bind = {}
        ps = g.params()
        if method:
            ps = ps[1:]
        if not any(isinstance(a, ast.Starred) for a in e.args):
            for p, a in zip(ps, args):
                bind[p] = a
        for k, v in kws.items():
            if k in g.all_params():
                bind[k] = v
        a = g.node.args
        ds = dict(zip([x.arg for x in (a.posonlyargs + a.args)][-len(a.defaults):] if a.defaults else [], a.defaults))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p, d in ds.items():
            if p not in bind and isinstance(d, ast.Constant) and not isinstance(d.value, (bytes, float)):
                bind[p] = T({('v', d.value, None)})
        tests, self.tests = self.tests, []
        try:
            return self.run(g, bind, outer)
        finally:
            self.tests = tests

    # -- truth ---------------------------------------------------------------------------

    def bool_of(self, x):
        if x[0] == 'v':
            return bool(x[1])
        if x[0] == 'set':
            return bool(x[1]) or None
        return None

    def truth(self, e, env, f) -> Set[bool]:
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return {not x for x in self.truth(e.operand, env, f)}
        if isinstance(e, ast.BoolOp):
            cur = env
            res = set()
            stop = isinstance(e.op, ast.Or)
            for i, x in enumerate(e.values):
                t = self.truth(x, cur, f)
                if i == len(e.values) - 1:
                    return res | t
                if stop in t:
                    res.add(stop)
                if (not stop) not in t:
                    return res
                n = self.narrow(x, cur, f, not stop)
                if n is None:
                    return res or {stop}
                cur = n
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, op, b = self.ev(e.left, env, f), e.ops[0], self.ev(e.comparators[0], env, f)
            if self.judging:
                self.judge(e, env, f)
            res = set()
            for x in a:
                for y in b:
                    res |= self.cmp(op, x, y)
            return res or {True, False}
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                self.ev(x, env, f)
            return {True, False}
        res = set()
        for x in self.ev(e, env, f):
            b = self.bool_of(x)
            res |= {True, False} if b is None else {b}
        return res or {True, False}

    def cmp(self, op, x, y) -> Set[bool]:
        both = {True, False}
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            if x[0] == 'v' and y[0] == 'v':
                r = x[1] == y[1]
                return {r if isinstance(op, (ast.Eq, ast.Is)) else not r}
            return both
        if isinstance(op, (ast.In, ast.NotIn)):
            if y[0] == 'set' and x[0] == 'v':
                r = set()
                if any(z == TOP or z == SOFT or z[0] not in ('v',) for z in y[1]):
                    return both
                hit = any(z[1] == x[1] for z in y[1])
                r = {hit}
                return r if isinstance(op, ast.In) else {not z for z in r}
            if y[0] == 'v' and x[0] == 'v' and isinstance(y[1], str) and isinstance(x[1], str):
                r = x[1] in y[1]
                return {r if isinstance(op, ast.In) else not r}
        return both

    def narrow(self, test, env, f, truth) -> Optional[Env]:
        judging, self.judging = self.judging, False
        try:
            if truth not in self.truth(test, env, f):
                return None
            names = {n.id for n in ast.walk(test) if isinstance(n, ast.Name)} & env.cur.keys()
            res = env.copy()
            for v in names:
                cur = env.cur[v]
                if not any(x[0] == 'v' or x == TOP for x in cur) or len(cur) > MAXSET:
                    continue
                keep = set()
                lits = self.listed(test, v, truth, env, f)
                if TOP in cur and lits is not None:
                    cur = T(x for x in cur if x != TOP) | lits
                    res.full[v] = T(x for x in res.full.get(v, cur) if x != TOP) | lits
                for x in cur:
                    e2 = env.copy()
                    e2.cur[v] = T({x})
                    if truth in self.truth(test, e2, f):
                        keep.add(x)
                if not keep:
                    return None
                res.cur[v] = T(keep)
            for n in ast.walk(test):
                if isinstance(n, ast.NamedExpr):
                    res.set(n.target.id, self.ev(n.value, env, f))
            return res
        finally:
            self.judging = judging

    def listed(self, test, v, truth, env, f):
        """the literals a variable must be one of when the test has this outcome"""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, truth = test.operand, not truth
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and test.left.id == v:
            b = self.ev(test.comparators[0], env, f)
            if isinstance(test.ops[0], (ast.In, ast.NotIn)) and isinstance(test.ops[0], ast.In) == truth:
                if b and all(x[0] == 'set' and all(y[0] == 'v' and y[2] is None for y in x[1]) for x in b):
                    return T().union(*(x[1] for x in b))
            if isinstance(test.ops[0], (ast.Eq, ast.NotEq)) and isinstance(test.ops[0], ast.Eq) == truth:
                if b and all(y[0] == 'v' and y[2] is None for y in b):
                    return b
        return None

    def full_env(self, env):
        return Env(env.full, env.full)

    def judge(self, e, env, f):
        """a configuration value is compared with literals that it can have"""
        op = e.ops[0]
        if not isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            return
        fe = self.full_env(env)
        self.judging = False
        try:
            a, b = self.ev(e.left, fe, f), self.ev(e.comparators[0], fe, f)
        finally:
            self.judging = True
        def keyed(s):
            return any(x[0] == 'v' and x[2] is not None for x in s)
        def consts(s):
            return s and all(x[0] == 'v' and x[2] is None for x in s)
        pairs = []
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if keyed(a) and consts(b):
                pairs.append((a, b))
            elif keyed(b) and consts(a):
                pairs.append((b, a))
        else:
            if keyed(a) and all(y[0] == 'set' and consts(y[1]) for y in b):
                for y in b:
                    pairs.append((a, y[1]))
            if consts(a):
                for y in b:
                    if y[0] == 'coll':
                        pairs.append((T(('v', z, y[1]) for z in self.tab.allowed[y[1]])
                                      | T(z for z in b if z[0] == 'v'), a))
                    elif y[0] == 'set' and keyed(y[1]):
                        pairs.append((y[1], a))
        for s, lits in pairs:
            if TOP in s:
                continue
            self.site('comparisons', e)
            have = {x[1] for x in s if x[0] == 'v'}
            key = next(x[2] for x in s if x[0] == 'v' and x[2] is not None)
            for x in lits:
                if x[1] not in have and x[1] is not None and x[1] != '':
                    self.bad('impossible-value', f'{f.qual} {key}={x[1]}', f, e,
                             f'"{unparse(e)[:60]}": {x[1]!r} is not a value the configuration variable "{key}" '
                             'can have here')


# -- configuration.py ---------------------------------------------------------------------

class Stores(Client):
    """atom: frozenset of facts
         ('ok', k, v)      validate_value(k, v) has been passed
         ('notin', k)      k is not in the values of the thread
         ('open',)         the presets are open
         ('mark',)         a preset has been changed since it was marked
         ('lay', x, t)     dictionary x has the layers t (P presets, C values of the thread; last one wins)
    """
    unroll = False

    def __init__(self, ix, rep, tab):
        self.ix, self.rep, self.tab = ix, rep, tab
        self.helpers = {}
        self.own: Set[int] = set()

    def is_thread_dict(self, e, func, atom):
        if isinstance(e, ast.Attribute) and e.attr == 'config' and last(e.value) in ('THREAD_LOCALS',):
            return True
        if isinstance(e, ast.Call) and last(e.func) == '_config_dict':
            return True
        return isinstance(e, ast.Name) and ('lay', e.id, 'T') in atom

    def is_preset_dict(self, e):
        return isinstance(e, ast.Name) and e.id == 'CONFIG_PRESET'

    def layers(self, e, atom, func):
        """layers of a dictionary expression, None: not known"""
        if self.is_preset_dict(e) or isinstance(e, ast.Call) and last(e.func) in ('get_preset_values',):
            return 'P'
        if self.is_thread_dict(e, func, atom):
            return 'C'
        if isinstance(e, ast.Name):
            for x in atom:
                if x[0] == 'lay' and x[1] == e.id:
                    return 'C' if x[2] == 'T' else x[2]
        if isinstance(e, ast.Call) and last(e.func) in ('dict', 'copy') and (e.args or isinstance(e.func, ast.Attribute)):
            return self.layers(e.args[0] if e.args else e.func.value, atom, func)
        if isinstance(e, ast.Call) and last(e.func) in ('dict', 'OrderedDict') and not e.args:
            return ''
        if isinstance(e, ast.Dict):
            r = ''
            for k, v in zip(e.keys, e.values):
                if k is None:
                    x = self.layers(v, atom, func)
                    if x is None:
                        return None
                    r += x
                else:
                    return None
            return r
        if isinstance(e, ast.DictComp):
            it = e.generators[0].iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items':
                for c in e.generators[0].ifs:
                    if isinstance(c, ast.Compare) and isinstance(c.ops[0], ast.NotIn) \
                            and self.is_thread_dict(c.comparators[0], func, atom):
                        return 'N'
                return self.layers(it.func.value, atom, func)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.layers(e.left, atom, func), self.layers(e.right, atom, func)
            return None if a is None or b is None else a + b
        return None

    def report(self, rule, func, node, msg):
        self.rep.violation(rule, f'{func.qual}', f'{func.module.rel}:{node.lineno} {func.qual}', msg)

    def store(self, target, func, key, value, node, atom):
        """store of value under key into the preset or thread dictionary"""
        self.rep.count('stores_checked')
        self.rep.ok()
        k, v = unparse(key), unparse(value)
        if ('ok', k, v) in atom:
            return
        if isinstance(key, ast.Constant) and isinstance(value, (ast.Constant, ast.Name)) and \
                key.value in self.tab.presets and key.value not in self.tab.allowed:
            return
        if target == 'thread' and (('frompreset', k, v) in atom or isinstance(value, ast.Subscript)
                                   and self.is_preset_dict(value.value) and unparse(value.slice) == k):
            if ('notin', k) not in atom:
                self.report('thread-value-replaced', func, node,
                            'a preset is stored among the values of the thread although the thread may have its own '
                            'value')
            return
        if self.validating_call(value, k, atom, func):
            return
        self.report('store-unvalidated', func, node,
                    f'"{v}" is stored under the key "{k}" without having passed validate_value({k}, {v}) before')

    def validating_call(self, e, k, atom, func):
        """does the function called validate the key k and the value it returns?"""
        if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Name):
            return False
        g = next((Func(n, func.module, func.cls, func) for n in ast.walk(func.node)
                  if isinstance(n, FUNC) and n.name == e.func.id and n is not func.node), None) \
            or self.ix.resolve_func(func.module, e.func.id)
        if g is None:
            return False
        names = dict(zip(g.params(), (unparse(a) for a in e.args)))
        names.update({x.arg: unparse(x.value) for x in e.keywords if x.arg})
        rets = [n for n in own_nodes(g.node) if isinstance(n, ast.Return)]
        if not rets or not all(isinstance(r.value, ast.Name) and r.value.id in names for r in rets):
            return False
        vs = {r.value.id for r in rets}
        o = Flow(Stores(self.ix, self.rep, self.tab)).run(g, [frozenset()])
        return bool(o.ret) and len(vs) == 1 and all(
            any(x[0] == 'ok' and x[2] in vs and (names.get(x[1]) == k or x[1] == k) for x in a) for a in o.ret)

    def event(self, kind, node, atom, flow, func):
        if kind == 'call':
            name = last(node.func)
            if name == 'validate_value' and len(node.args) + len(node.keywords) >= 2:
                args = list(node.args) + [None, None]
                kw = {x.arg: x.value for x in node.keywords}
                k, v = args[0] or kw.get('key'), args[1] or kw.get('value')
                if k is not None and v is not None:
                    return [atom | {('ok', unparse(k), unparse(v))}]
            if name in ('access_presets', 'finalize_presets'):
                atom = frozenset(x for x in atom if x[0] != 'acc')
                return [atom | {('open',)} if name == 'access_presets' else atom - {('open',)}]
            if name in ('set_preset_value', 'get_preset_value', 'get_preset_values') and func.name != name \
                    and isinstance(node.func, ast.Name):
                self.rep.count('accesses_of_presets')
                self.rep.ok()
                if ('open',) not in atom and not any(x[0] == 'fact' for x in atom):
                    self.report('presets-not-open', func, node,
                                f'{name} is called although the presets have not been opened on this path')
            if isinstance(node.func, ast.Attribute) and name == 'update' and node.args:
                base = node.func.value
                lay = self.layers(node.args[0], atom, func)
                if self.is_thread_dict(base, func, atom) or self.is_preset_dict(base):
                    self.rep.count('stores_checked')
                    self.rep.ok()
                    a = node.args[0]
                    if lay is None:
                        if ('okall', unparse(a)) not in atom:
                            self.report('store-unvalidated', func, node,
                                        f'the entries of "{unparse(a)}" are stored without having passed '
                                        'validate_value before')
                    elif 'P' in lay and not lay.endswith('C') and not self.is_preset_dict(base):
                        self.report('thread-value-replaced', func, node,
                                    'presets are stored among the values of the thread although the thread may '
                                    'have its own values')
                elif isinstance(base, ast.Name):
                    old = self.layers(base, atom, func)
                    new = frozenset(x for x in atom if not (x[0] == 'lay' and x[1] == base.id))
                    if old is not None and lay is not None:
                        t = (old + lay)
                        while 'PP' in t or 'CC' in t or 'NN' in t:
                            t = t.replace('PP', 'P').replace('CC', 'C').replace('NN', 'N')
                        new |= {('lay', base.id, t[-4:])}
                    return [new]
            if isinstance(node.func, ast.Attribute) and name == 'setdefault' and len(node.args) == 2 \
                    and self.is_thread_dict(node.func.value, func, atom):
                k, v = node.args
                if ('frompreset', unparse(k), unparse(v)) not in atom:
                    self.store('thread', func, k, v, node, atom)
        return [atom]

    def begin(self, st, atom, flow, func):
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = st.iter
            names = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
            atom = self.kill(atom, names)
            src = it.func.value if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                and it.func.attr == 'items' else it
            if isinstance(it, ast.Call) and isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2:
                k, v = (unparse(x) for x in st.target.elts)
                lay = self.layers(src, atom, func)
                if lay == 'P':
                    atom = atom | {('frompreset', k, v)}
                # a loop that validates every entry
                if any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)
                       and last(s.value.func) == 'validate_value' and len(s.value.args) == 2
                       and [unparse(x) for x in s.value.args] == [k, v] for s in st.body) \
                        and not any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) for s in st.body
                                    for n in ast.walk(s)):
                    atom = atom | {('okall', unparse(src))}
            return atom
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if isinstance(t, ast.Subscript):
                    if self.is_preset_dict(t.value):
                        self.store('preset', func, t.slice, st.value, st, atom)
                        if not isinstance(t.slice, ast.Constant):
                            atom = atom | {('mark',)}
                            if func.name.startswith('set_'):
                                self.rep.count('accesses_of_presets')
                    elif self.is_thread_dict(t.value, func, atom):
                        self.store('thread', func, t.slice, st.value, st, atom)
                elif isinstance(t, ast.Name):
                    lay = self.layers(st.value, atom, func)
                    thread = self.is_thread_dict(st.value, func, atom) or \
                        isinstance(st.value, ast.Name) and ('lay', st.value.id, 'T') in atom
                    atom = self.kill(atom, {t.id})
                    if isinstance(st.value, ast.Call) and last(st.value.func) == 'is_accessing_presets' or \
                            isinstance(st.value, ast.Name) and st.value.id == 'ACCESSING_PRESETS':
                        atom = atom | {('acc', t.id)}
                    if t.id == 'PRESETS_CHANGED':
                        atom = atom - {('mark',)} if isinstance(st.value, ast.Constant) and st.value.value is True \
                            else atom
                    if thread:
                        atom = atom | {('lay', t.id, 'T')}
                    elif lay is not None and not self.is_preset_dict(t):
                        atom = atom | {('lay', t.id, lay)}
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            if isinstance(st.op, ast.BitOr) and self.layers(st.target, atom, func) is not None:
                call = ast.Call(ast.Attribute(st.target, 'update', ast.Load()), [st.value], [])
                ast.copy_location(call, st)
                ast.fix_missing_locations(call)
                return list(self.event('call', call, atom, flow, func))[0]
            atom = self.kill(atom, {st.target.id})
        return atom

    def kill(self, atom, names):
        if not names:
            return atom
        pats = [re.compile(r'\b%s\b' % re.escape(n)) for n in names]
        return frozenset(x for x in atom if x[0] in ('open', 'mark', 'fact') or
                         not any(p.search(str(y)) for p in pats for y in x[1:2 if x[0] == 'lay' else None]))

    def branch(self, test, atom, truth, flow, func):
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, truth = test.operand, not truth
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and truth or isinstance(test.op, ast.Or) and not truth:
                for v in test.values:
                    atom = list(self.branch(v, atom, truth, flow, func))[0]
            return [atom]
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.In, ast.NotIn)):
            isin = isinstance(test.ops[0], ast.In) == truth
            if self.is_thread_dict(test.comparators[0], func, atom) and not isin:
                return [atom | {('notin', unparse(test.left))}]
        if isinstance(test, ast.Name) and (test.id == 'ACCESSING_PRESETS' or ('acc', test.id) in atom) or \
                isinstance(test, ast.Call) and last(test.func) == 'is_accessing_presets':
            return [atom | {('open',)}] if truth else [atom - {('open',)}]
        return [atom]

    def target(self, call, atom, flow, func):
        f = call.func
        if isinstance(f, ast.Name):
            for n in ast.walk(func.node):
                if isinstance(n, FUNC) and n.name == f.id and n is not func.node:
                    return self.helpers.setdefault(id(n), Func(n, func.module, func.cls, func))
            if f.id in ('validate_value', 'access_presets', 'finalize_presets', '_config_dict') or f.id in READS | WRITES:
                return None
            g = self.ix.resolve_func(func.module, f.id)
            if g is not None and g.name.startswith('_') and g.module is func.module:
                return g
        return None

    def bind(self, callee, call, atom, flow, func):
        m = {}
        for p, a in zip(callee.params(), call.args):
            m[unparse(a)] = p
        for k in call.keywords:
            if k.arg:
                m[unparse(k.value)] = k.arg
        keep = atom if callee.outer is not None else frozenset(x for x in atom if x[0] in ('open', 'mark', 'fact'))
        new = set(keep)
        for x in atom:
            if x[0] in ('ok', 'notin', 'frompreset', 'lay'):
                y = (x[0],) + tuple(m.get(z, z) for z in (x[1:] if x[0] != 'lay' else x[1:2])) + \
                    (x[2:] if x[0] == 'lay' else ())
                if all(z in m.values() for z in (y[1:] if x[0] != 'lay' else y[1:2])):
                    new.add(y)
        return frozenset(new)

    def unbind(self, callee, call, atom, before, flow, func):
        m = {}
        for p, a in zip(callee.params(), call.args):
            m[p] = unparse(a)
        for k in call.keywords:
            if k.arg:
                m[k.arg] = unparse(k.value)
        res = set(x for x in before if x[0] not in ('open', 'mark'))
        for x in atom:
            if x[0] in ('open', 'mark', 'fact'):
                res.add(x)
            elif x[0] == 'ok' and all(z in m for z in x[1:]):
                res.add(('ok',) + tuple(m[z] for z in x[1:]))
            elif x[0] == 'okall' and x[1] in m:
                res.add(('okall', m[x[1]]))
        return frozenset(res)

    def may_skip(self, loop, atom, flow, func):
        it = getattr(loop, 'iter', None)
        return not (isinstance(it, (ast.Tuple, ast.List)) and any(not isinstance(x, ast.Starred) for x in it.elts))


def check_store_paths(ix, rep, tab):
    m = ix.module('configuration')
    cl = Stores(ix, rep, tab)
    for f in list(m.functions.values()):
        if f.name in ('validate_value', 'access_presets', 'finalize_presets', '_config_dict'):
            continue
        if not any(isinstance(n, ast.Name) and n.id in ('CONFIG_PRESET', '_config_dict', 'THREAD_LOCALS') or
                   isinstance(n, ast.Call) and last(n.func) in READS | WRITES | {'get_preset_values'}
                   for n in ast.walk(f.node)):
            continue
        if f.name.startswith('_') and any(isinstance(n, ast.Call) and last(n.func) == f.name for g in m.functions.values()
                                          if g is not f for n in ast.walk(g.node)):
            continue        # judged where it is called
        # the setters and getters of presets have to look for themselves
        o = Flow(cl).run(f, [frozenset()])
        rep.count('configuration_functions')
        rep.ok()
        if any(('mark',) in a for a in o.ret):
            rep.violation('change-not-marked', f.qual, f.where,
                          f'{f.qual} can return after having changed a preset without setting PRESETS_CHANGED: the '
                          'change would not reach processes started later')
        if f.name in ('set_preset_value', 'get_preset_value', 'get_preset_values'):
            rep.count('accesses_of_presets')
            if any(('open',) not in a for a in o.ret):
                rep.violation('presets-not-open', f.qual, f.where,
                              f'{f.qual} can return normally although the presets have not been opened')
            else:
                rep.ok()
    for mod in ix.modules.values():
        if mod.name == 'configuration':
            continue
        for f in list(mod.functions.values()) + [x for c in mod.classes.values() for x in c.methods.values()]:
            if any(isinstance(n, ast.Call) and last(n.func) in ('set_preset_value', 'get_preset_value',
                                                                'get_preset_values') for n in ast.walk(f.node)):
                Flow(cl).run(f, [frozenset()])
                rep.count('configuration_functions')


# -- validate_value ------------------------------------------------------------------------

class Tok:
    """abstract value: what is known about the restriction, its bounds, the value and its items"""
    __slots__ = ('kind', 'good', 'side')

    def __init__(self, kind, good=True, side=''):
        self.kind, self.good, self.side = kind, good, side

    def __repr__(self):
        return f'{"allowed" if self.good else "forbidden"} {self.kind}' + (f' ({self.side})' if self.side else '')


_CONT = {'Iterable', 'Collection', 'Sized', 'Container'}
TYPES = {'int': {'int'}, 'float': {'float'}, 'text': {'str', 'Sequence'} | _CONT,
         'frozenset': {'frozenset'} | _CONT, 'tuple': {'tuple', 'Sequence'} | _CONT,
         'list': {'list', 'Sequence'} | _CONT, 'other': set(), 'none': set(),
         'range': {'tuple', 'Sequence'} | _CONT, 'set': {'frozenset'} | _CONT, 'bound': {'int'}}
ALL_TYPES = set().union(*TYPES.values()) | {'set', 'bool', 'dict', 'bytes', 'complex'}


def abstract_run(f: Func, restriction: Tok, value: Tok):
    """walks validate_value over kinds of values: 'ok', 'raise', or None for constructs without a rule"""
    class Stop(Exception):
        pass

    class Ret(Exception):
        pass

    class Raised(Exception):
        pass

    class Brk(Exception):
        pass

    class Cont(Exception):
        pass
    ps = f.params()
    env = {ps[0]: Tok('key'), ps[1]: value} if len(ps) >= 2 else {}
    depth = [0]

    def truth(v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Tok) and v.kind in ('range', 'set'):
            return True
        if isinstance(v, Tok) and v.kind == 'none':
            return False
        raise Stop

    def items(v):
        """sequences of abstract items that stand for an iterable"""
        if isinstance(v, Tok) and v.kind in ('frozenset', 'tuple', 'list'):
            if v.side == 'empty':
                return []
            return [Tok('text', True)] * 2 if v.good else (
                [Tok('text', True), Tok('text', False)] if v.side != 'first' else
                [Tok('text', False), Tok('text', True)])
        if isinstance(v, Tok) and v.kind == 'text':
            return [Tok('text', False)]         # its characters
        raise Stop

    def types(e):
        if isinstance(e, ast.Tuple):
            return set().union(*(types(x) for x in e.elts))
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return types(e.left) | types(e.right)
        n = last(e)
        if n in ALL_TYPES:
            return {n}
        raise Stop

    def compare(op, a, b):
        neg = isinstance(op, (ast.NotIn, ast.IsNot, ast.NotEq))
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Tok) and b.kind == 'set' and isinstance(a, Tok):
                return a.good != neg
            raise Stop
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if a is None or b is None:
                x = a if b is None else b
                r = x is None or isinstance(x, Tok) and x.kind == 'none'
                return r != neg
            raise Stop
        order = {'below': 0, 'lo': 1, 'in': 2, 'hi': 3, 'above': 4}
        if isinstance(a, Tok) and isinstance(b, Tok):
            if 'bound' in (a.kind, b.kind) and {a.kind, b.kind} <= {'bound', 'int', 'float'}:
                x, y = order[a.side], order[b.side]
                return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            if 'bound' in (a.kind, b.kind):
                raise Raised        # the comparison itself fails
        raise Stop

    def ev(e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            raise Stop
        if isinstance(e, ast.NamedExpr):
            env[e.target.id] = ev(e.value)
            return env[e.target.id]
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = truth(ev(x))
                if v == isinstance(e.op, ast.Or):
                    return v
            return v
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not truth(ev(e.operand))
        if isinstance(e, ast.IfExp):
            return ev(e.body) if truth(ev(e.test)) else ev(e.orelse)
        if isinstance(e, ast.Compare):
            a = ev(e.left)
            for op, c in zip(e.ops, e.comparators):
                b = ev(c)
                if not compare(op, a, b):
                    return False
                a = b
            return True
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            if last(e.value) == 'ALLOWED_PRESET_VALUES':
                if restriction.kind == 'none':
                    raise Raised
                return restriction
            b, i = ev(e.value), ev(e.slice)
            if isinstance(b, Tok) and b.kind == 'range' and i in (0, 1):
                return Tok('bound', True, 'lo' if i == 0 else 'hi')
            raise Stop
        if isinstance(e, ast.Call):
            n = last(e.func)
            if n == 'get' and isinstance(e.func, ast.Attribute) and last(e.func.value) == 'ALLOWED_PRESET_VALUES':
                return restriction if restriction.kind != 'none' else None
            if n == 'isinstance' and len(e.args) == 2:
                v = ev(e.args[0])
                if v is None:
                    return False
                if not isinstance(v, Tok):
                    raise Stop
                return bool(TYPES[v.kind] & types(e.args[1]))
            if n in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) \
                    and len(e.args[0].generators) == 1 and isinstance(e.args[0].generators[0].target, ast.Name):
                g = e.args[0].generators[0]
                r = []
                for x in items(ev(g.iter)):
                    env[g.target.id] = x
                    if all(truth(ev(c)) for c in g.ifs):
                        r.append(truth(ev(e.args[0].elt)))
                return any(r) if n == 'any' else all(r)
            if n == 'issubset' and isinstance(e.func, ast.Attribute) and len(e.args) == 1:
                b = e.func.value
                v = ev(b.args[0] if isinstance(b, ast.Call) and last(b.func) in ('set', 'frozenset') else b)
                w = ev(e.args[0])
                if isinstance(w, Tok) and w.kind == 'set':
                    return all(x.good for x in items(v))
                raise Stop
            if isinstance(e.func, ast.Name) and f.module.functions.get(n) is not None and depth[0] < 4:
                g = f.module.functions[n]
                old = dict(env)
                args = {p: ev(a) for p, a in zip(g.params(), e.args)}
                args.update({k.arg: ev(k.value) for k in e.keywords})
                env.clear()
                env.update(args)
                depth[0] += 1
                r = None
                try:
                    block(g.node.body)
                except Ret as x:
                    r = x.args[0]
                finally:
                    depth[0] -= 1
                    env.clear()
                    env.update(old)
                return r
        raise Stop

    def block(body):
        for st in body:
            if isinstance(st, (ast.Global, ast.Pass, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(st, ast.Expr):
                if not isinstance(st.value, ast.Constant):
                    ev(st.value)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                if st.value is None:
                    continue
                t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                if isinstance(t, ast.Name):
                    try:
                        env[t.id] = ev(st.value)
                    except Stop:
                        env.pop(t.id, None)     # a text for the message, say
                elif isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts):
                    v = ev(st.value)
                    if not isinstance(v, Tok) or v.kind != 'range':
                        raise Stop
                    env[t.elts[0].id], env[t.elts[1].id] = Tok('bound', True, 'lo'), Tok('bound', True, 'hi')
                else:
                    raise Stop
            elif isinstance(st, ast.If):
                block(st.body if truth(ev(st.test)) else st.orelse)
            elif isinstance(st, ast.For) and isinstance(st.target, ast.Name):
                done = True
                for x in items(ev(st.iter)):
                    env[st.target.id] = x
                    try:
                        block(st.body)
                    except Brk:
                        done = False
                        break
                    except Cont:
                        pass
                if done:
                    block(st.orelse)
            elif isinstance(st, ast.Raise):
                raise Raised
            elif isinstance(st, ast.Assert):
                if not truth(ev(st.test)):
                    raise Raised
            elif isinstance(st, ast.Return):
                raise Ret(ev(st.value) if st.value is not None else None)
            elif isinstance(st, ast.Break):
                raise Brk
            elif isinstance(st, ast.Continue):
                raise Cont
            else:
                raise Stop
    try:
        block(f.node.body)
        return 'ok'
    except Ret:
        return 'ok'
    except Raised:
        return 'raise'
    except (Stop, KeyError):
        return None


NO, RNG, SET = Tok('none'), Tok('range'), Tok('set')
KINDS = [(NO, Tok(k)) for k in ('text', 'int', 'frozenset', 'other')] \
    + [(RNG, Tok(k, s not in ('below', 'above'), s)) for k in ('int', 'float')
       for s in ('below', 'lo', 'in', 'hi', 'above')] \
    + [(RNG, Tok('text', False)), (RNG, Tok('other', False))] \
    + [(SET, Tok('text', True)), (SET, Tok('text', False)), (SET, Tok('int', False)), (SET, Tok('other', False))] \
    + [(SET, Tok(k, True, s)) for k in ('frozenset', 'tuple', 'list') for s in ('', 'empty')] \
    + [(SET, Tok(k, False, s)) for k in ('frozenset', 'tuple', 'list') for s in ('', 'first')]


def check_validate(ix, rep):
    f = ix.func('configuration', 'validate_value')
    for restriction, value in KINDS:
        r = abstract_run(f, restriction, value)
        if r is None:
            rep.count('kinds_not_decided')
            continue
        rep.count('kinds_of_values')
        if (r == 'ok') != value.good:
            rep.violation('validation', f'{restriction.kind}: {value!r}', f.where,
                          f'validate_value {"lets" if r == "ok" else "does not let"} a value of the kind '
                          f'"{value!r}" pass where the restriction is a {restriction.kind}')
        else:
            rep.ok()


# -- everything -----------------------------------------------------------------------------

KEY_IN_TEXT = re.compile(r'''\b(?:get|set)_(?:config|preset)_value\(\s*['"]([\w.{}]+)['"](?:\s*,\s*['"]([^'"]*)['"])?'''
                         r'''([^\n]*)''')


def extra_modules(ix) -> List[Module]:
    res = []
    base = os.path.join(ix.repo, 'DHParser')
    for sub in ('ebnf_flavors', 'scripts'):
        d = os.path.join(base, sub)
        if not os.path.isdir(d):
            continue
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.py'):
                p = os.path.join(d, fn)
                with open(p, encoding='utf-8') as fh:
                    text = fh.read()
                if 'config_value' in text or 'preset_value' in text:
                    try:
                        res.append(Module(f'{sub}.{fn[:-3]}', p, f'DHParser/{sub}/{fn}', text))
                    except SyntaxError:
                        pass
    return res


def texts(ix):
    """code in templates and in string constants"""
    d = os.path.join(ix.repo, 'DHParser', 'templates')
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if fn.endswith(('.pyi', '.py')) and not fn.endswith('_old.pyi'):
                with open(os.path.join(d, fn), encoding='utf-8') as fh:
                    yield f'DHParser/templates/{fn}', fh.read()
    for m in ix.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and '_value(' in n.value:
                yield f'{m.rel}:{n.lineno}', n.value


def check(ix: Index, rep, tier):
    tab = Table(ix, rep)
    rep.count('configuration_variables', len(tab.presets))
    rep.count('restricted_variables', len(tab.allowed))
    rel = tab.m.rel
    for k, v in tab.presets.items():
        rep.ok()
        if not tab.permits(k, v):
            rep.violation('preset-not-allowed', k, f'{rel}:{tab.line.get(k, 0)}',
                          f'the preset {v!r} of "{k}" is not among its allowed values')
    for k, a in tab.allowed.items():
        rep.ok()
        if k not in tab.presets:
            rep.violation('unknown-key', f'ALLOWED_PRESET_VALUES {k}', f'{rel}:{tab.line.get("allowed " + k, 0)}',
                          f'allowed values are given for "{k}", which is not a configuration variable')
        if isinstance(a, str):
            rep.violation('preset-not-allowed', f'allowed {k}', f'{rel}:{tab.line.get("allowed " + k, 0)}',
                          f'the allowed values of "{k}" are a text, not a set: every substring would be allowed')
    for old, new in tab.renamed.items():
        rep.ok()
        if new not in tab.presets or old in tab.presets:
            rep.violation('unknown-key', f'RENAMED_KEYS {old}', rel,
                          f'"{old}" is renamed to "{new}", which is not a configuration variable')

    extra = extra_modules(ix)
    w = Walker(ix, rep, tab, extra)
    funcs = []
    for m in list(ix.modules.values()) + extra:
        for f in list(m.functions.values()):
            funcs.append(f)
        for c in m.classes.values():
            funcs.extend(c.methods.values())
            funcs.extend(c.setters.values())
    funcs = [f for f in funcs if not (f.module.name == 'configuration' and f.name in READS | WRITES)]
    hot = ('get_config_value', 'get_preset_value', 'set_config_value', 'set_preset_value', 'CONFIG_PRESET')
    direct = [f for f in funcs if any(isinstance(n, ast.Name) and n.id in hot or
                                      isinstance(n, ast.Attribute) and n.attr in hot for n in ast.walk(f.node))]
    # first the functions that read the configuration: which attributes and fields hold what they read?
    for _ in range(2):
        w.memo.clear()
        w.ment.clear()
        for f in direct:
            w.run(f, {})
    # all assignments to these attributes and fields
    names = {a for a, v in w.attrs.items() if any(x[0] in ('v', 'coll') and x[-1] is not None for x in v)}
    fields = {a for a, v in w.fields.items() if any(x[0] in ('v', 'coll') and x[-1] is not None for x in v)}
    more = []
    for f in funcs:
        if f in direct:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in names or \
                    isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in fields:
                more.append(f)
                break
    for f in more:
        w.run(f, {})
    w.memo.clear()
    w.ment.clear()
    w.judging = True
    for f in direct + more:
        w.run(f, {})
        rep.count('functions_walked')
    # module level
    for m in list(ix.modules.values()) + extra:
        if m.name == 'configuration':
            continue
        body = [s for s in m.tree.body if not isinstance(s, FUNC + (ast.ClassDef, ast.Import, ast.ImportFrom))
                and any(isinstance(n, ast.Name) and n.id in hot for n in ast.walk(s))]
        if body:
            node = ast.FunctionDef(name='<module>', args=ast.arguments([], [], None, [], [], None, []), body=body,
                                   decorator_list=[], returns=None, lineno=1, col_offset=0)
            w.run(Func(node, m), {})
    for where, text in texts(ix):
        for x in KEY_IN_TEXT.finditer(text):
            k, v, restline = x.group(1), x.group(2), x.group(3)
            rep.count('keys_in_generated_code')
            rep.ok()
            if not w.known(k):
                if 'allow_new_key' not in restline:
                    rep.violation('unknown-key', f'{where.split(":")[0]} {k}', where,
                                  f'generated code or a template uses the configuration variable "{k}" that '
                                  'configuration.py does not define')
            elif v is not None and x.group(0).startswith('set') and k in tab.presets and '{' not in v \
                    and not tab.permits(k, v):
                rep.violation('value-not-allowed', f'{where.split(":")[0]} {k}', where,
                              f'generated code or a template sets "{k}" to {v!r}, which is not allowed')
    check_store_paths(ix, rep, tab)
    check_validate(ix, rep)
    rep.floor('configuration_variables', 30)
    rep.floor('restricted_variables', 6)
    rep.floor('configuration_reads', 40)
    rep.floor('configuration_writes', 12)
    rep.floor('comparisons', 10)
    rep.floor('stores_checked', 4)
