"""Position domain for the parsing engine: abstract values for reading positions, related by the
order facts (a >= b, a > b); used by the checks that decide what parsers consume."""
from __future__ import annotations
import ast
from typing import Dict, List, Optional, Tuple

from sa.src import Index, Class, Func, AnalysisError, dotted, unparse, own_nodes, FUNC
from sa.absint import Interp, Domain, State, TOP, NONE, const, is_const, mentions, inst, drop_dead_facts

START = ('pos', 'start')
DOCLEN = ('pos', 'doclen')
NUMERIC = ('num', 'item', 'call', 'attr', 'elem')
PARSER_CALL_ATTRS = {'parser', '_parse_proxy', '_parse', '__call__'}


def is_pos(v) -> bool:
    return isinstance(v, tuple) and v[0] == 'pos'


def rel(st: State, a, b) -> Optional[int]:
    """1: a > b, 0: a >= b, None: unknown"""
    if a == b:
        return 0
    if a == DOCLEN:
        r = st.facts.get(('rel', a, b))
        return 0 if r is None else r
    return st.facts.get(('rel', a, b))


def add_rel(st: State, a, b, strict: int) -> State:
    """adds a >= b (+ strict) and closes transitively"""
    if a == b:
        return st
    terms = {a, b}
    for k in st.facts:
        if isinstance(k, tuple) and k[0] == 'rel':
            terms.add(k[1])
            terms.add(k[2])
    ups = [(x, rel(st, x, a)) for x in terms]
    downs = [(y, rel(st, b, y)) for y in terms]
    f = dict(st.facts)
    for x, r1 in ups:
        if r1 is None:
            continue
        for y, r2 in downs:
            if r2 is None or x == y:
                continue
            s = max(r1, r2, strict)
            k = ('rel', x, y)
            if f.get(k, -1) < s:
                f[k] = s
    return State(st.env, f)


def equal(st: State, a, b) -> bool:
    if a == b:
        return True
    return st.facts.get(('rel', a, b)) is not None and st.facts.get(('rel', b, a)) is not None


class PosDomain(Domain):
    max_depth = 5
    record_conditions = 'names'

    def __init__(self, ix: Index):
        super().__init__(ix)
        self.parser_cls = ix.cls('parse', 'Parser')
        self.parser_classes = {c.name for c in ix.subclasses(self.parser_cls)}
        self.returns: List[Tuple] = []
        self.bad: List[Tuple] = []
        self.parser_calls = 0
        self.loops: Dict[str, List] = {}
        self.nonneg_cache: Dict[Tuple[str, str], bool] = {}
        self.progress: List[Tuple] = []
        self.raised_pe: List[Tuple] = []

    # -- helper -------------------------------------------------------------------

    def lo(self, st, v) -> Optional[int]:
        """lower bound of an integer value"""
        if is_const(v) and isinstance(v[1], int) and not isinstance(v[1], bool):
            return v[1]
        if v[0] == 'nn':
            return v[1]
        f = st.facts.get(('lo', v))
        if f is not None:
            return f
        if v[0] == 'attr' and v[1][0] == 'inst' and self.attr_nonneg(v[1][1], v[2]):
            return 0
        return None

    def num(self, it, st, node, lo) -> Tuple[State, tuple]:
        st, t = it.fresh(st, node, 'num')
        if lo is not None:
            st = st.fact(('lo', t), lo)
        return st, t

    def attr_nonneg(self, cls: Class, attr: str) -> bool:
        k = (cls.name, attr)
        if k not in self.nonneg_cache:
            vals = []
            for c in self.ix.mro(cls):
                for f in c.methods.values():
                    for n in ast.walk(f.node):
                        tgts, val = [], None
                        if isinstance(n, ast.Assign):
                            tgts, val = n.targets, n.value
                        elif isinstance(n, ast.AnnAssign):
                            tgts, val = [n.target], n.value
                        elif isinstance(n, ast.AugAssign):
                            tgts, val = [n.target], n.value
                        for t in tgts:
                            if isinstance(t, ast.Attribute) and t.attr == attr:
                                vals.append(val)
            ok = bool(vals)
            for v in vals:
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'len':
                    continue
                if isinstance(v, ast.Constant) and isinstance(v.value, int) and v.value >= 0:
                    continue
                ok = False
            self.nonneg_cache[k] = ok
        return self.nonneg_cache[k]

    def pos_vars(self, st) -> Dict[str, tuple]:
        res = {}
        for n, v in st.env.items():
            if is_pos(v):
                res[n] = v
            elif v[0] == 'tuple':
                for i, x in enumerate(v[1]):
                    if is_pos(x):
                        res[f'{n}[{i}]'] = x
        return res

    # -- values --------------------------------------------------------------------

    def attr(self, it, st, base, node):
        if node.attr == 'document_length__':
            return [(st, DOCLEN)]
        if base == ('exc', 'ParserError') and node.attr == 'location':
            return [(st, ('pos', 'pe'))] if any(mentions(k, ('pos', 'pe')) for k in st.facts) \
                else [(st, ('pos', 'pe'))]
        if base == ('exc', 'ParserError') and node.attr == 'node_orig_len':
            return [(st, ('nn', 0))]
        return None

    def none_of(self, it, st, v) -> Optional[bool]:
        if v == NONE:
            return True
        if v[0] in ('inst', 'pres', 'glob', 'tuple', 'num', 'nn', 'pos'):
            return False
        if v[0] == 'attr' and v[2] == 'node' and v[1][0] == 'exc':
            return False
        return it.none_status(st, v)

    def compare(self, it, st, op, l, r, node):
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and NONE in (l, r):
            v = l if r == NONE else r
            b = self.none_of(it, st, v)
            if b is not None:
                return [(st, b == (op in ('Is', 'Eq')))]
            return None
        if is_pos(l) and is_pos(r):
            return self.cmp_pos(st, op, l, r)
        if is_pos(l) and is_const(r) and isinstance(r[1], int) and not isinstance(r[1], bool):
            # positions are never negative
            if r[1] <= 0:
                if op == 'Lt':
                    return [(st, False)]
                if op == 'GtE':
                    return [(st, True)]
                if op == 'LtE' and r[1] < 0:
                    return [(st, False)]
                if op == 'Gt' and r[1] < 0:
                    return [(st, True)]
            return [(st, True), (st, False)]
        if l[0] == 'neg' and is_const(r) and isinstance(r[1], int):
            if r[1] == 0:
                return [(st, op in ('Lt', 'LtE', 'NotEq'))]
            if r[1] < 0 and op in ('LtE', 'Lt'):
                return [(st, False)]
        if l[0] == 'neg' and op in ('LtE', 'Lt'):
            return [(st, False)]
        if l[0] in NUMERIC and is_const(r) and isinstance(r[1], int) and not isinstance(r[1], bool):
            return self.cmp_num(st, op, l, r[1])
        if r[0] in NUMERIC and is_const(l) and isinstance(l[1], int) and not isinstance(l[1], bool):
            m = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}
            return self.cmp_num(st, m.get(op, op), r, l[1])
        return None

    def cmp_num(self, st, op, t, k):
        lo = st.facts.get(('lo', t))

        def with_lo(s, x):
            cur = s.facts.get(('lo', t))
            return s if cur is not None and cur >= x else s.fact(('lo', t), x)
        pos = {'Lt': (None, k), 'LtE': (None, k + 1), 'Gt': (k + 1, None), 'GtE': (k, None)}
        if op in pos:
            tt, ff = pos[op]
            res = []
            if op in ('Lt', 'LtE'):
                if lo is None or lo < ff:
                    res.append((st, True))
                res.append((with_lo(st, ff), False))
            else:
                res.append((with_lo(st, tt), True))
                if lo is None or lo < tt:
                    res.append((st, False))
            return res
        if op in ('Eq', 'NotEq'):
            eq = (st, op == 'Eq')
            ne = (with_lo(st, k + 1) if lo == k else st, op != 'Eq')
            if lo is not None and lo > k:
                return [ne]
            return [eq, ne]
        return None

    def cmp_pos(self, st, op, l, r):
        flip = {'Gt': ('Lt', r, l), 'GtE': ('LtE', r, l)}
        if op in flip:
            op, l, r = flip[op]
        lr, rl = rel(st, l, r), rel(st, r, l)     # l vs r ; r vs l
        if op == 'Lt':       # l < r
            if rl == 1:
                return [(st, True)]
            if lr is not None:
                return [(st, False)]
            return [(add_rel(st, r, l, 1), True), (add_rel(st, l, r, 0), False)]
        if op == 'LtE':      # l <= r
            if rl is not None:
                return [(st, True)]
            if lr == 1:
                return [(st, False)]
            return [(add_rel(st, r, l, 0), True), (add_rel(st, l, r, 1), False)]
        if op in ('Eq', 'NotEq', 'Is', 'IsNot'):
            yes = op in ('Eq', 'Is')
            if l == r or (lr is not None and rl is not None):
                return [(st, yes)]
            if lr == 1 or rl == 1:
                return [(st, not yes)]
            eq = add_rel(add_rel(st, l, r, 0), r, l, 0)
            ne = st
            if lr == 0:
                ne = add_rel(st, l, r, 1)
            elif rl == 0:
                ne = add_rel(st, r, l, 1)
            return [(eq, yes), (ne, not yes)]
        return None

    def shifted(self, it, st, node, base, lo):
        st, t = it.fresh(st, node, 'pos')
        if lo is not None and lo >= 0:
            st = add_rel(st, t, base, 1 if lo > 0 else 0)
        return [(st, t)]

    def binop(self, it, st, op, l, r, node):
        if op == 'Add':
            if is_pos(r) and not is_pos(l):
                l, r = r, l
            if is_pos(l):
                if is_const(r) and r[1] == 0:
                    return [(st, l)]
                lo = self.lo(st, r)
                if lo is not None and lo < 0:
                    if is_const(r):
                        st, t = it.fresh(st, node, 'pos')
                        return [(add_rel(st, l, t, 1), t)]
                    lo = None
                return self.shifted(it, st, node, l, lo)
            a, b = self.lo(st, l), self.lo(st, r)
            if a is not None and b is not None and not (is_const(l) and is_const(r)):
                st, t = self.num(it, st, node, a + b)
                return [(st, t)]
        elif op == 'Sub':
            if is_pos(l) and is_pos(r):
                q = rel(st, l, r)
                st, t = self.num(it, st, node, q)
                return [(st, t)]
            if is_pos(l) and is_const(r) and isinstance(r[1], int):
                if r[1] == 0:
                    return [(st, l)]
                st, t = it.fresh(st, node, 'pos')
                if r[1] > 0:
                    st = add_rel(st, l, t, 1)
                return [(st, t)]
            a = self.lo(st, l)
            if a is not None and is_const(r) and isinstance(r[1], int) and not is_const(l):
                st, t = self.num(it, st, node, a - r[1])
                return [(st, t)]
        return None

    def unop(self, it, st, op, v, node):
        if op == 'USub':
            if is_pos(v):
                return [(st, ('neg', v))]
            if v[0] == 'neg':
                return [(st, v[1])]
        return None

    def truth(self, it, st, val):
        if val[0] == 'inst':
            return None
        return None

    # -- calls ------------------------------------------------------------------------

    def contract(self, it, st, node, loc):
        """a parser call: no match -> position unchanged, match -> position not smaller"""
        self.parser_calls += 1
        it.emit_raise(add_rel(it.forget(st, ('pos', 'pe'), drop_holders=True), ('pos', 'pe'), loc, 0),
                      'ParserError', node)
        it.emit_raise(st, 'RecursionError', node)
        it.emit_raise(st, 'CancelError', node)
        st = self.note_parser_call(it, st, node, loc)
        s2, t = it.fresh(st, node, 'pres')
        s2, p = it.fresh(s2, node, 'pos')
        s2 = add_rel(s2, p, loc, 0)
        return [(st, ('tuple', (NONE, loc))), (s2, ('tuple', (t, p)))]

    def note_parser_call(self, it, st, node, loc):
        for k in list(st.facts):
            if isinstance(k, tuple) and k[0] == 'loopcall' and not st.facts[k]:
                st = st.fact(k, True)
        return st

    def callee_name(self, fv, node):
        if fv[0] == 'attr':
            return fv[2]
        if fv[0] == 'bound':
            return fv[1].name
        return None

    def is_parser_call(self, fv, args, node) -> bool:
        if len(args) != 1 or not is_pos(args[0]):
            return False
        if fv[0] == 'bound':
            return fv[1].name in ('_parse', '__call__') and fv[1].cls is not None \
                and fv[1].cls.name in self.parser_classes
        if fv[0] == 'inst':
            return fv[1].name in self.parser_classes
        if fv[0] in ('elem', 'item', 'top', 'glob'):
            return True
        if fv[0] == 'attr':
            if fv[2] in PARSER_CALL_ATTRS:
                return True
            return False
        return fv[0] == 'call' or fv[0] == 'default'

    pos_args = 0

    def call(self, it, st, node, fv, args, kw):
        self.pos_args = sum(1 for a in list(args) + list(kw.values()) if is_pos(a))
        if len(args) == 1 and fv[0] == 'attr' and fv[2] == '_parse_proxy' and not is_pos(args[0]):
            # a negative position signals a memo hit to the tracing proxy
            p = args[0][1] if args[0][0] == 'neg' else START
            return self.subscript(it, st, ('attr', TOP, 'visited'), p, node)
        if self.is_parser_call(fv, args, node):
            return self.contract(it, st, node, args[0])
        name = self.callee_name(fv, node)
        if name is None and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            name = node.func.attr
        if fv == ('builtin', 'len') and len(args) == 1:
            a = args[0]
            if a[0] == 'attr' and a[2] in ('document__', 'text__'):
                return [(st, DOCLEN)]
            st, t = self.num(it, st, node, 0)
            return [(st, t)]
        if fv == ('builtin', 'max') and len(args) >= 2 and not kw:
            if all(is_pos(a) for a in args):
                st, t = it.fresh(st, node, 'pos')
                for a in args:
                    st = add_rel(st, t, a, 0)
                return [(st, t)]
            los = [x for x in (self.lo(st, a) for a in args) if x is not None]
            st, t = self.num(it, st, node, max(los) if los else None)
            return [(st, t)]
        if fv == ('builtin', 'min') and len(args) >= 2 and not kw:
            if all(is_pos(a) for a in args):
                st, t = it.fresh(st, node, 'pos')
                for a in args:
                    st = add_rel(st, a, t, 0)
                anchors = [START] + [k[2] for k in list(st.facts) if isinstance(k, tuple) and k[0] == 'rel']
                for b in dict.fromkeys(anchors):
                    rs = [rel(st, a, b) for a in args]
                    if b != t and all(q is not None for q in rs):
                        st = add_rel(st, t, b, min(rs))
                return [(st, t)]
            los = [self.lo(st, a) for a in args]
            st, t = self.num(it, st, node, min(los) if None not in los else None)
            return [(st, t)]
        if fv == ('builtin', 'cast') or fv == ('ext', 'typing.cast'):
            return [(st, args[1])] if len(args) == 2 else None
        if fv == ('builtin', 'int') and len(args) == 1 and (is_pos(args[0]) or args[0][0] == 'num'):
            return [(st, args[0])]
        if fv[0] in ('attr', 'top', 'bound'):
            base = fv[1] if fv[0] == 'attr' else TOP
            if fv[0] == 'bound' and name == 'with_pos':
                return [(st, fv[2])]
            if fv[0] == 'bound':
                name = '' if name not in ('find', 'rfind', 'index', 'rindex', 'strlen', '__len__', 'count') else name
            if name in ('match', 'fullmatch', 'search') and args:
                st, t = it.fresh(st, node, 'mt')
                p = [a for a in args[1:] if is_pos(a)]
                if p:
                    st = st.fact(('mtpos', t), p[0])
                return [(st, t)]
            if base[0] == 'mt' and name in ('end', 'start'):
                p = st.facts.get(('mtpos', base))
                if p is not None:
                    return self.shifted(it, st, node, p, 0)
            if name in ('find', 'rfind', 'index', 'rindex'):
                st, t = self.num(it, st, node, -1 if 'find' in name else 0)
                return [(st, t)]
            if name in ('strlen', '__len__', 'count'):
                st, t = self.num(it, st, node, 0)
                return [(st, t)]
            if name == 'with_pos' and base != TOP:
                return [(st, base)]
            if name in ('_return_value', '_return_values'):
                st, t = it.fresh(st, node, 'pres')
                return [(st, t)]
        if fv[0] == 'bound' and name in ('strlen', '__len__'):
            st, t = self.num(it, st, node, 0)
            return [(st, t)]
        return None

    def inline(self, it, func, node):
        if func.module.name not in ('parse', 'trace'):
            return False
        if func.name in ('reentry_point', 'infinite_loop_warning', 'history_record', 'call_item',
                         'symbol_name', 'result_changed', 'associated_symbol__', '__repr__', '__str__',
                         'new_PE', 'is_context_sensitive', 'descendants', 'name'):
            return False
        if func.cls is not None and func.cls.name in ('Grammar', 'HistoryRecord'):
            return False
        if func.name == '__init__' or func.is_property:
            return False
        if func.cls is None and func.outer is None and self.pos_args == 0:
            return False
        return True

    # -- memo table -----------------------------------------------------------------

    def subscript(self, it, st, base, idx, node):
        if base[0] == 'attr' and base[2] == 'visited' and is_pos(idx):
            s2, t = it.fresh(st, node, 'pres')
            s2, p = it.fresh(s2, node, 'pos')
            s2 = add_rel(s2, p, idx, 0)
            return [(st, ('tuple', (NONE, idx))), (s2, ('tuple', (t, p)))]
        return None

    def assign_sub(self, it, st, base, idx, val, node):
        if base[0] == 'attr' and base[2] == 'visited':
            self.on_memo_store(it, st, idx, val, node)
        return None

    def on_memo_store(self, it, st, idx, val, node):
        pass

    # -- loops ------------------------------------------------------------------------

    def loop_id(self, it, node):
        return f'{it.frame.func.qual}#{node.lineno}:{node.col_offset}{it.frame.path}'

    def rebase(self, it, st, lid, head: Optional[Dict]) -> State:
        """renames positions that were computed inside the loop to loop-head terms"""
        pv = self.pos_vars(st)
        names = {}
        for n, v in pv.items():
            if v in (START, DOCLEN, ('pos', 'pe')) or (len(v) > 1 and v[1] == 'hd' and v[2] != lid):
                continue
            names.setdefault(v, []).append(n)
        new_terms = {}
        for v, ns in names.items():
            new_terms[v] = ('pos', 'hd', lid, min(ns))
        keep = {START, DOCLEN} | {k for f in st.facts if isinstance(f, tuple) and f[0] == 'rel'
                                  for k in (f[1], f[2]) if len(k) > 1 and k[1] == 'hd' and k[2] != lid}
        facts = {}
        old = {}
        for k, val in st.facts.items():
            if isinstance(k, tuple) and k[0] == 'rel':
                old[(k[1], k[2])] = val
            elif isinstance(k, tuple) and k[0] == 'lo' and head is None:
                facts[k] = val
            else:
                facts[k] = val
        for (a, b), val in old.items():
            a2 = new_terms.get(a, a if a in keep else None)
            b2 = new_terms.get(b, b if b in keep else None)
            if a2 is None or b2 is None or a2 == b2:
                continue
            kk = ('rel', a2, b2)
            facts[kk] = max(val, facts.get(kk, -1))
        env = {}
        for n, v in st.env.items():
            if is_pos(v):
                env[n] = new_terms.get(v, v)
            elif v[0] == 'tuple' and any(is_pos(x) for x in v[1]):
                env[n] = ('tuple', tuple(new_terms.get(x, x) if is_pos(x) else
                                         ('pres', 'hd', lid) if x[0] == 'pres' else x for x in v[1]))
            elif v[0] == 'pres':
                env[n] = ('pres', 'hd', lid)
            else:
                env[n] = v
        st = State(env, facts)
        return drop_dead_facts(st) if len(it.frames) == 1 else st

    def on_loop_head(self, it, st, node):
        lid = self.loop_id(it, node)
        st = self.rebase(it, st, lid, None)
        if self.unbounded(node):
            hv = tuple(sorted(self.pos_vars(st).items()))
            st = st.fact(('head', lid), hv).fact(('loopcall', lid), False)
        return st

    def unbounded(self, node) -> bool:
        if isinstance(node, ast.While):
            return True
        if isinstance(node, (ast.For, ast.AsyncFor)) and isinstance(node.iter, ast.Call):
            d = dotted(node.iter.func) or ''
            # range(<repetition count>): repetition counts can be practically infinite
            return d.split('.')[-1] in ('count', 'cycle', 'repeat') or \
                (d == 'iter' and len(node.iter.args) == 2) or \
                (d == 'range' and not all(isinstance(a, ast.Constant) for a in node.iter.args))
        return False

    def on_back_edge(self, it, st, node):
        lid = self.loop_id(it, node)
        if self.unbounded(node):
            heads = dict(st.facts.get(('head', lid), ()))
            now = self.pos_vars(st)
            prog = [n for n, v in now.items() if n in heads and rel(st, v, heads[n]) == 1]
            if st.facts.get(('loopcall', lid)):
                self.progress.append((it.frame.func, node, bool(prog), st))
        st = self.rebase(it, st, lid, {})
        if self.unbounded(node):
            hv = tuple(sorted(self.pos_vars(st).items()))
            st = st.fact(('head', lid), hv).fact(('loopcall', lid), False)
        return st

    def on_loop_exit(self, it, st, node):
        lid = self.loop_id(it, node)
        return st.unfact(('head', lid), ('loopcall', lid))

    def keep_fact(self, key):
        return not (isinstance(key, tuple) and key and key[0] in ('truth', 'none', 'cmp', 'isinst'))

    # -- returns ------------------------------------------------------------------------

    def on_return(self, it, st, val, node, func):
        if len(it.frames) == 1:
            self.returns.append((func, st, val, node))


def run_parser(ix: Index, cls: Class, func: Func, dom: PosDomain, extra=None) -> Interp:
    it = Interp(ix, dom)
    self_ = inst(cls)
    ps = func.params()
    env = {ps[0]: self_}
    facts = {}
    for p in ps[1:]:
        env[p] = TOP
    if len(ps) < 2:
        raise AnalysisError(f'{func.where}: expected a position parameter')
    env['location' if 'location' in ps else ps[-1]] = START
    if extra:
        env.update({k: v for k, v in extra.items() if k in ps})
        facts = extra.get('__facts__', {})
    ret, raised = it.run(func, env, facts, self_)
    return it
