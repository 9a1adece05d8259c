"""Abstract interpretation over a generic tree: what a pass over a tree does to the children of an arbitrary node.

Values are terms (tuples).  Lists whose items matter (paths) live in a heap; a path starts with a prefix of unknown length
('pre', name).  Loops are executed for one arbitrary element and iterated until the state at the beginning of an iteration
is stable; what the loop does becomes a single event ('for', sequence, alternatives).  Calls of functions of the package
are executed in place; recursive calls become events ('visit', function, arguments).
"""
from __future__ import annotations
import ast
from typing import Dict, List, Optional, Tuple

from .src import Func, FUNC, Index, unparse, dotted


class Unrecognised(Exception):
    """the code has a form that the analysis does not follow"""


NONE, TRUE, FALSE = ('c', None), ('c', True), ('c', False)
NEXT = None
PURE = {'len', 'isinstance', 'id', 'str', 'repr', 'type', 'cast', 'hasattr', 'callable', 'int', 'bool', 'min', 'max', 'sum',
        'any', 'all', 'set', 'frozenset', 'dict', 'getattr', 'print', 'abs', 'hash', 'issubclass', 'format', 'super',
        'reversed', 'list', 'tuple', 'iter', 'enumerate', 'zip', 'range', 'sorted', 'filter', 'map', 'next'}


class St:
    __slots__ = ('envs', 'up', 'heap', 'attrs', 'know', 'trace', 'given', 'notes')

    def __init__(self):
        self.envs: Dict[int, Dict[str, tuple]] = {}
        self.up: Dict[int, Optional[int]] = {}
        self.heap: Dict[int, Optional[tuple]] = {}
        self.attrs: Dict[Tuple[tuple, str], tuple] = {}
        self.know: Dict[tuple, bool] = {}
        self.trace: tuple = ()
        self.given: frozenset = frozenset()
        self.notes: frozenset = frozenset()

    def copy(self):
        s = St()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.up = dict(self.up)
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.know = dict(self.know)
        s.trace, s.given, s.notes = self.trace, self.given, self.notes
        return s

    def note(self, *x):
        self.notes = self.notes | {x}

    def event(self, *e):
        self.trace = self.trace + (e,)


class Frame:
    __slots__ = ('env', 'func', 'up', 'on_yield', 'mayraise', 'module', 'cls')

    def __init__(self, env, func, up, on_yield, module, cls):
        self.env, self.func, self.up, self.on_yield, self.module, self.cls = env, func, up, on_yield, module, cls
        self.mayraise = ()

    def on_stack(self, node):
        f = self
        while f is not None:
            if f.func is node:
                return True
            f = f.up
        return False

    def depth(self):
        n, f = 0, self
        while f is not None:
            n, f = n + 1, f.up
        return n


def mentions(t, x) -> bool:
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def is_raise(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == '!raise'


class Walk:
    LIMIT = 400

    def __init__(self, ix: Index, opaque=frozenset(), inline=True, interest=()):
        self.ix = ix
        self.interest = frozenset(interest)     # functions are followed if they mention one of these names
        self.opaque = opaque        # names of functions that are not followed
        self.inline = inline
        self.n = 0
        self.closures: Dict[int, tuple] = {}
        self.visited: Dict[str, tuple] = {}      # recursive functions: closure
        self.folds: Dict[tuple, set] = {}        # values of variables changed by loops
        self.comps: Dict[int, set] = {}
        self.steps = 0
        self.watch: tuple = ()          # lists the items of which are recorded with each call
        self.grew: set = set()          # lists that are longer after a round of a for-loop
        self.gives: Dict[str, set] = {}     # recursive generators that hand out a parameter

    def new(self):
        self.n += 1
        return self.n

    # -- setting up ----------------------------------------------------------------------

    def newlist(self, st, items):
        i = len(st.heap) + 1
        st.heap[i] = tuple(items)
        return ('L', i)

    def start(self, f: Func, args: Dict[str, tuple], st: St = None, up_env=None, on_yield=None):
        st = st or St()
        env = len(st.envs) + 1
        st.envs[env] = {}
        st.up[env] = up_env
        fr = Frame(env, f.node, None, on_yield or self.yielded, f.module, f.cls)
        self.bind_all(f.node, st, env, args)
        return [(s, o) for s, o in self.block(f.node.body, st, fr)]

    def bind_all(self, node, st, env, args):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            st.envs[env][x.arg] = args.get(x.arg, ('n', x.arg))
        for x in (a.vararg, a.kwarg):
            if x is not None:
                st.envs[env][x.arg] = args.get(x.arg, ('n', x.arg))

    def yielded(self, st, v, fr):
        """a value is handed out to the caller of the outermost function"""
        st = st.copy()
        st.event('yield', self.snap(st, v))
        if v[0] == 'L':
            st.given = st.given | {v[1]}
        return [(st, NEXT)]

    def snap(self, st, v):
        """the value with the lists replaced by their items"""
        if isinstance(v, tuple) and v and v[0] == 'L' and len(v) == 2:
            items = st.heap.get(v[1])
            return ('list',) + tuple(self.snap(st, x) for x in items) if items is not None else ('lost', v[1])
        if isinstance(v, tuple):
            return tuple(self.snap(st, x) if isinstance(x, tuple) else x for x in v)
        return v

    # -- statements ---------------------------------------------------------------------

    def block(self, stmts, st, fr):
        states = [(st, NEXT)]
        for s in stmts:
            res = []
            for x, o in states:
                if o is NEXT:
                    res.extend(self.stmt(s, x, fr))
                else:
                    res.append((x, o))
            states = self.merge(res)
            if not any(o is NEXT for _, o in states):
                break
        return states

    def merge(self, states):
        if len(states) > 1:
            groups = {}
            for x, o in states:
                k = (o, x.trace, x.given, x.notes, tuple(sorted(x.heap.items())), frozenset(x.attrs.items()),
                     tuple((e, frozenset(v.items())) for e, v in sorted(x.envs.items())))
                groups.setdefault(k, []).append(x)
            if len(groups) < len(states):
                res = []
                for k, xs in groups.items():
                    x = xs[0]
                    if len(xs) > 1:
                        x = x.copy()
                        common = set(xs[0].know.items())
                        for y in xs[1:]:
                            common &= set(y.know.items())
                        x.know = dict(common)
                    res.append((x, k[0]))
                states = res
        if len(states) > self.LIMIT:
            raise Unrecognised('too many cases')
        return states

    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > 60000:
            raise Unrecognised('too many steps')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unrecognised(type(s).__name__)
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return [(st, NEXT)]

    s_Import = s_ImportFrom = s_Nonlocal = s_Global = s_Pass

    def s_Assert(self, s, st, fr):
        return [(st, NEXT)]

    def s_FunctionDef(self, s, st, fr):
        st = st.copy()
        st.envs[fr.env][s.name] = self.closure(s, fr)
        return [(st, NEXT)]

    def s_ClassDef(self, s, st, fr):
        st = st.copy()
        st.envs[fr.env][s.name] = ('n', s.name)
        return [(st, NEXT)]

    def closure(self, node, fr):
        i = id(node)
        self.closures[i] = (node, fr.module, fr.cls)
        return ('F', i, fr.env)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(st, NEXT)]
        return [(x, ('raise', v[1]) if is_raise(v) else v if isinstance(v, tuple) and v[:1] == ('!out',) else NEXT)
                for x, v in self.ev(s.value, st, fr)]

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ('ret', NONE))]
        return [(x, ('raise', v[1]) if is_raise(v) else ('ret', v)) for x, v in self.ev(s.value, st, fr)]

    def s_Raise(self, s, st, fr):
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        return [(st, ('raise', (dotted(e) or '?').split('.')[-1] if e is not None else '?'))]

    def s_Break(self, s, st, fr):
        return [(st, ('brk',))]

    def s_Continue(self, s, st, fr):
        return [(st, ('cont',))]

    def s_Assign(self, s, st, fr):
        res = []
        for x, v in self.ev(s.value, st, fr):
            if is_raise(v):
                res.append((x, ('raise', v[1])))
                continue
            x = x.copy()
            for t in s.targets:
                self.assign(t, v, x, fr)
            res.append((x, NEXT))
        return res

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, NEXT)]
        res = []
        for x, v in self.ev(s.value, st, fr):
            if is_raise(v):
                res.append((x, ('raise', v[1])))
                continue
            x = x.copy()
            self.assign(s.target, v, x, fr)
            res.append((x, NEXT))
        return res

    def s_AugAssign(self, s, st, fr):
        load = ast.copy_location(ast.BinOp(left=as_load(s.target), op=s.op, right=s.value), s)
        res = []
        for x, old in self.ev(as_load(s.target), st, fr):
            for y, v in self.ev(s.value, x, fr):
                if is_raise(v):
                    res.append((y, ('raise', v[1])))
                    continue
                y = y.copy()
                if old[0] == 'L' and isinstance(s.op, ast.Add):
                    self.extend(old, v, y, fr)
                    res.append((y, NEXT))
                    continue
                self.assign(s.target, self.binop(s.op, old, v, y), y, fr)
                res.append((y, NEXT))
        return res

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == 'T' and len(v[1]) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v[1]):
                    self.assign(e, x, st, fr)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        e = e.value
                        self.assign(e, ('rest', v, i), st, fr)
                    else:
                        self.assign(e, self.subscript(v, ('c', i), st), st, fr)
        elif isinstance(t, ast.Attribute):
            for x, b in self.ev(t.value, st, fr)[:1]:
                b = self.canon_obj(b)
                st.attrs[(b, t.attr)] = v
                st.event('set', b, t.attr, self.snap(st, v))
        elif isinstance(t, ast.Subscript):
            bs = self.ev(t.value, st, fr)
            ks = self.ev(t.slice, st, fr) if not isinstance(t.slice, ast.Slice) else [(st, ('slice',))]
            b, k = bs[0][1], ks[0][1]
            if b[0] == 'L':
                items = st.heap.get(b[1])
                self.mutated(b, st)
                if items is not None and k == ('c', -1) and items and items[-1][0] != 'pre':
                    st.heap[b[1]] = items[:-1] + (v,)
                elif items is not None and k[0] == 'c' and isinstance(k[1], int) and 0 <= k[1] < len(items) \
                        and not any(i[0] == 'pre' for i in items):
                    st.heap[b[1]] = items[:k[1]] + (v,) + items[k[1] + 1:]
                else:
                    st.heap[b[1]] = None
            else:
                st.event('store', b, k, self.snap(st, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def canon_obj(self, b):
        return b

    def setvar(self, name, v, st, fr):
        env = fr.env
        if name in nonlocals(fr.func):
            e = st.up.get(env)
            while e is not None and name not in st.envs[e]:
                e = st.up.get(e)
            if e is not None:
                env = e
        st.envs[env][name] = v

    def getvar(self, name, st, fr):
        e = fr.env
        while e is not None:
            if name in st.envs.get(e, {}):
                return st.envs[e][name]
            e = st.up.get(e)
        return None

    def s_Delete(self, s, st, fr):
        st = st.copy()
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)[0][1]
                if b[0] == 'L':
                    self.mutated(b, st)
                    items = st.heap.get(b[1])
                    k = self.ev(t.slice, st, fr)[0][1] if not isinstance(t.slice, ast.Slice) else None
                    if items is not None and k == ('c', -1):
                        self.pop(b, st)
                    else:
                        st.heap[b[1]] = None
        return [(st, NEXT)]

    def s_If(self, s, st, fr):
        res = []
        for x, b in self.cond(s.test, st, fr):
            if is_raise(b):
                res.append((x, ('raise', b[1])))
            else:
                res.extend(self.block(s.body if b else s.orelse, x, fr))
        return self.merge(res)

    def s_With(self, s, st, fr):
        states = [(st, NEXT)]
        for it in s.items:
            nxt = []
            for x, _ in states:
                for y, v in self.ev(it.context_expr, x, fr):
                    y = y.copy()
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, ('with', v), y, fr)
                    nxt.append((y, NEXT))
            states = nxt
        return [r for x, _ in states for r in self.block(s.body, x, fr)]

    def s_Try(self, s, st, fr):
        names = []
        for h in s.handlers:
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            names += [(dotted(t) or '?').split('.')[-1] if t is not None else 'Exception' for t in ts]
        old = fr.mayraise
        fr.mayraise = tuple(set(old) | set(names))
        out = self.block(s.body, st, fr)
        fr.mayraise = old
        res = []
        for x, o in out:
            if o is not NEXT and o[0] == 'raise':
                for h in s.handlers:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    ns = [(dotted(t) or '?').split('.')[-1] if t is not None else 'Exception' for t in ts]
                    if o[1] in ns or 'Exception' in ns or 'BaseException' in ns or '?' == o[1] or \
                            (o[1] in ('KeyError', 'IndexError') and 'LookupError' in ns):
                        y = x.copy()
                        if h.name:
                            y.envs[fr.env][h.name] = ('exc', o[1])
                        res.extend(self.block(h.body, y, fr))
                        break
                else:
                    res.append((x, o))
            elif o is NEXT and s.orelse:
                res.extend(self.block(s.orelse, x, fr))
            else:
                res.append((x, o))
        if s.finalbody:
            fin = []
            for x, o in res:
                for y, o2 in self.block(s.finalbody, x, fr):
                    fin.append((y, o if o2 is NEXT else o2))
            res = fin
        return self.merge(res)

    # -- loops --------------------------------------------------------------------------

    def s_While(self, s, st, fr):
        key = ('while', id(s))

        def begin(x):
            return [(y, b) for y, b in self.cond(s.test, x, fr)]

        def body(x):
            res = []
            for y, b in begin(x):
                if is_raise(b):
                    res.append((y, ('raise', b[1])))
                elif b:
                    res.extend(self.block(s.body, y, fr))
                else:
                    res.append((y, ('exit',)))
            return res
        return self.loop(key, ('while',), st, fr, body, s.orelse, always=True)

    def s_For(self, s, st, fr):
        res = []
        for x, seq in self.evseq(s.iter, st, fr):
            if is_raise(seq):
                res.append((x, ('raise', seq[1])))
                continue
            if seq[0] == 'gen':
                res.extend(self.for_generator(s, seq, x, fr))
                continue
            if seq[0] == 'visited' and not s.orelse:
                y = x.copy()
                y.trace = ()
                self.assign(s.target, ('el', seq), y, fr)
                out = self.block(s.body, y, fr)
                if all(o in (NEXT, ('cont',)) and z.trace == (('yield', ('el', seq)),) for z, o in out):
                    for z, o in out:
                        z.trace = x.trace + (('visit', seq[1], seq[2]),)
                        res.append((z, NEXT))
                    continue
            src, elem = self.element(seq)
            if seq[0] in ('T', 'L') and self.finite(seq, x) is not None:
                states = [(x, NEXT)]
                for v in self.finite(seq, x):
                    nxt = []
                    for y, o in states:
                        if o is NEXT:
                            y = y.copy()
                            self.assign(s.target, v, y, fr)
                            nxt.extend((z, NEXT if p in (NEXT, ('cont',)) else p) for z, p in self.block(s.body, y, fr))
                        else:
                            nxt.append((y, o))
                    states = nxt
                for y, o in states:
                    if o is NEXT:
                        res.extend(self.block(s.orelse, y, fr))
                    else:
                        res.append((y, NEXT if o == ('brk',) else o))
                continue

            def body(y, elem=elem):
                y = y.copy()
                for k in [k for k in y.know if mentions(k, elem)]:
                    del y.know[k]
                self.assign(s.target, elem, y, fr)
                return self.block(s.body, y, fr)
            res.extend(self.loop(('for', id(s)), ('for', self.snap(x, src)), x, fr, body, s.orelse))
        return self.merge(res)

    def finite(self, seq, st):
        if seq[0] == 'T':
            return seq[1] if len(seq[1]) <= 4 and not any(v[0] in ('star',) for v in seq[1]) else None
        items = st.heap.get(seq[1])
        if items is None or any(i[0] == 'pre' for i in items) or len(items) > 4:
            return None
        return items

    def element(self, seq):
        """(sequence that is run through, arbitrary element)"""
        if seq[0] == 'enumerate':
            src, e = self.element(seq[1])
            return src, ('T', (('ix', src), e))
        if seq[0] == 'zip':
            parts = [self.element(x) for x in seq[1]]
            return ('zip', tuple(p[0] for p in parts)), ('T', tuple(p[1] for p in parts))
        if seq[0] == 'range':
            a = seq[1]
            if len(a) == 1 and a[0][0] == 'len':
                return a[0][1], ('ix', a[0][1])
            if len(a) == 2 and a[0] == ('c', 0) and a[1][0] == 'len':
                return a[1][1], ('ix', a[1][1])
            if len(a) == 3 and a[1] == ('c', -1) and a[2] == ('c', -1) and a[0][0] == 'bin' and a[0][1] == '-' \
                    and a[0][2][0] == 'len' and a[0][3] == ('c', 1):
                return rev(a[0][2][1]), ('ix', a[0][2][1])
        return seq, ('el', base_seq(seq))

    def loop(self, key, head, st, fr, body, orelse, always=False):
        acc: Dict[tuple, tuple] = {}
        n0 = len(st.trace)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 8:
                raise Unrecognised('loop does not settle')
            x = st.copy()
            for k, v in acc.items():
                self.put(x, k, v)
            x.trace = ()
            know0 = dict(x.know)
            start = x
            out = body(x.copy())
            changed = False
            for y, o in out:
                if o is NEXT or o == ('cont',):
                    for k in self.differences(start, y):
                        if k in acc and acc[k] == ('gone',):
                            continue
                        new = ('acc', key[1], k) if k[0] != 'heap' else self.joined(start.heap.get(k[1]), y.heap.get(k[1]), key, k)
                        if k[0] == 'heap' and new is None:
                            if start.heap.get(k[1]) is not None:
                                if y.heap.get(k[1]) is not None:
                                    self.grown(k[1], start, y, head)
                                acc[k] = ('gone',)
                                changed = True
                            continue
                        if acc.get(k) != new:
                            acc[k] = new
                            changed = True
            if not changed:
                break
        alts, res, leaves = [], [], []
        folds: Dict[tuple, tuple] = {}
        for y, o in out:
            if is_exit(o):
                leaves.append((y, o))
                if y.trace:
                    alts.append((frozenset(d for d in y.know.items() if d not in know0.items()), y.trace, 'exit'))
                continue
            kind = 'next' if o is NEXT or o == ('cont',) else o[0]
            alts.append((frozenset((self.snap(y, k), v) for k, v in y.know.items() if know0.get(k) != v), y.trace, kind))
            if kind == 'next':
                for k in acc:
                    if k[0] == 'var':
                        folds.setdefault(k, set()).add(self.snap(y, self.getk(y, k)))
            elif kind == 'brk':
                leaves.append((y, o))
            else:
                leaves.append((y, o))
        event = head + (dedup(alts),)
        after = st.copy()
        for k, v in acc.items():
            if k[0] == 'var':
                init = self.snap(st, self.getk(st, k) or NONE)
                steps = folds.get(k, set())
                name = (key[1], k[1], k[2])
                self.folds[name] = self.folds.get(name, set()) | steps
                self.put(after, k, ('fold', init, name))
            else:
                self.put(after, k, v)
        # attributes, lists created in the loop, handed-out values
        for y, o in out:
            after.given = after.given | frozenset(i for i in y.given if i in st.heap)
            after.notes = after.notes | y.notes
        after.know = {k: v for k, v in after.know.items() if not any(mentions(k, ('acc', key[1], a)) for a in acc)}
        after.trace = st.trace + (event,)
        if not always or any(is_exit(o) for _, o in leaves):
            for y, o in self.block(orelse, after.copy(), fr) if orelse else [(after, NEXT)]:
                res.append((y, o))
        for y, o in leaves:
            if is_exit(o):
                continue
            z = y.copy()
            z.trace = st.trace + (event,) + (('leave', o[0]),)
            z.notes, z.given = after.notes | y.notes, after.given | y.given
            if o == ('brk',):
                res.append((z, NEXT))
            else:
                res.append((z, o))
        return self.merge(res)

    def grown(self, lid, st, y, head):
        if head[0] == 'for':
            self.grew.add(lid)

    def joined(self, a, b, key, k):
        if a is None or b is None or len(a) != len(b):
            return None
        return tuple(x if x == y else ('acc', key[1], k, i) for i, (x, y) in enumerate(zip(a, b)))

    def differences(self, a, b):
        res = []
        for e, env in a.envs.items():
            for n, v in b.envs[e].items():
                if env.get(n) != v:
                    res.append(('var', e, n))
        for i, items in a.heap.items():
            if b.heap.get(i) != items:
                res.append(('heap', i))
        for k, v in b.attrs.items():
            if a.attrs.get(k) != v:
                res.append(('attr',) + k)
        return res

    def getk(self, st, k):
        if k[0] == 'var':
            return st.envs[k[1]].get(k[2])
        if k[0] == 'heap':
            return st.heap.get(k[1])
        return st.attrs.get((k[1], k[2]))

    def put(self, st, k, v):
        if k[0] == 'var':
            st.envs[k[1]][k[2]] = v
        elif k[0] == 'heap':
            st.heap[k[1]] = None if v == ('gone',) else v
        else:
            st.attrs[(k[1], k[2])] = v

    def for_generator(self, s, gen, st, fr):
        """for x in generator(...): the body is executed where the generator yields"""
        def on_yield(x, v, inner):
            x = x.copy()
            self.assign(s.target, v, x, fr)
            res = []
            for y, o in self.block(s.body, x, fr):
                if o in (NEXT, ('cont',)):
                    res.append((y, NEXT))
                elif o == ('brk',):
                    res.append((y, ('raise', '!stop')))
                else:
                    res.append((y, ('raise', '!' + o[0])) if o[0] != 'raise' else (y, o))
            return res
        res = []
        for x, o in self.run_closure(gen[1], gen[2], gen[3], st, fr, on_yield):
            if o is not NEXT and o[0] == 'raise' and o[1] == '!stop':
                res.append((x, NEXT))
            elif o is not NEXT and o[0] == 'raise':
                res.append((x, o))
            else:
                res.extend(self.block(s.orelse, x, fr))
        return res

    # -- expressions ---------------------------------------------------------------------

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > 60000:
            raise Unrecognised('too many steps')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, ('x', unparse(e)))]
        return m(e, st, fr)

    def evs(self, es, st, fr):
        """[(state, [values])] or [(state, ('!raise', name))]"""
        states = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in states:
                if is_raise(vs):
                    nxt.append((x, vs))
                    continue
                for y, v in self.ev(e, x, fr):
                    nxt.append((y, v if is_raise(v) else vs + [v]))
            states = nxt
        return states

    def evseq(self, e, st, fr):
        return self.ev(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [(st, ('c', e.value))]

    def e_JoinedStr(self, e, st, fr):
        return [(st, ('x', 'text'))]

    def e_Name(self, e, st, fr):
        v = self.getvar(e.id, st, fr)
        if v is not None:
            return [(st, v)]
        return [(st, ('n', e.id))]

    def e_Attribute(self, e, st, fr):
        res = []
        for x, b in self.ev(e.value, st, fr):
            if is_raise(b):
                res.append((x, b))
            else:
                res.append((x, self.attribute(b, e.attr, x)))
        return res

    def attribute(self, b, attr, st):
        if (b, attr) in st.attrs:
            return st.attrs[(b, attr)]
        if attr == 'children':
            attr = '_children'
        return ('at', b, attr)

    def e_Subscript(self, e, st, fr):
        res = []
        if isinstance(e.slice, ast.Slice):
            for x, vs in self.evs([e.value] + [y for y in (e.slice.lower, e.slice.upper, e.slice.step) if y is not None],
                                  st, fr):
                if is_raise(vs):
                    res.append((x, vs))
                    continue
                it = iter(vs[1:])
                lo, up, step = [next(it) if y is not None else NONE
                                for y in (e.slice.lower, e.slice.upper, e.slice.step)]
                x = x.copy()
                res.append((x, self.slice(vs[0], lo, up, step, x)))
            return res
        for x, vs in self.evs([e.value, e.slice], st, fr):
            if is_raise(vs):
                res.append((x, vs))
                continue
            b, k = vs
            v = self.subscript(b, k, x)
            res.append((x, v))
            if v[0] == 'sub' and {'KeyError', 'IndexError', 'LookupError'} & set(fr.mayraise) \
                    and not isinstance(e.ctx, ast.Store):
                key = ('in', k, b)
                known = x.know.get(key)
                if known is True:
                    continue
                res.pop()
                if known is None:
                    y = x.copy()
                    y.know[key] = True
                    res.append((y, v))
                z = x.copy()
                z.know[key] = False
                res.append((z, ('!raise', 'KeyError')))
        return res

    def slice(self, b, lo, up, step, st):
        if b[0] == 'L':
            items = st.heap.get(b[1])
            if items is not None and lo == NONE and up == NONE and step == NONE:
                return self.newlist(st, items)
            if items is not None and lo == NONE and up == ('c', -1) and step == NONE and items and items[-1][0] != 'pre':
                return self.newlist(st, items[:-1])
            return ('slice', self.snap(st, b), lo, up, step)
        if step == ('c', -1) and lo == NONE and up == NONE:
            return rev(b)
        if lo == NONE and up == NONE and step == NONE:
            return b
        return ('slice', b, lo, up, step)

    def subscript(self, b, k, st):
        if b[0] == 'L':
            items = st.heap.get(b[1])
            if items is not None and k[0] == 'c' and isinstance(k[1], int):
                if k[1] < 0 and len(items) >= -k[1] and not any(i[0] == 'pre' for i in items[k[1]:]):
                    return items[k[1]]
                if k[1] < 0 and items and items[0][0] == 'pre':
                    return ('last', items[0], k[1] + len(items) - 1)
                if k[1] >= 0 and not any(i[0] == 'pre' for i in items[:k[1] + 1]) and len(items) > k[1]:
                    return items[k[1]]
            return ('sub', self.snap(st, b), k)
        if b[0] == 'T' and k[0] == 'c' and isinstance(k[1], int) and -len(b[1]) <= k[1] < len(b[1]):
            return b[1][k[1]]
        if k[0] == 'ix' and base_seq(k[1]) == base_seq(b):
            return ('el', base_seq(b))
        return ('sub', b, k)

    def e_Tuple(self, e, st, fr):
        return [(x, vs if is_raise(vs) else ('T', tuple(vs))) for x, vs in self.evs(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        res = []
        for x, vs in self.evs(e.elts, st, fr):
            if is_raise(vs):
                res.append((x, vs))
                continue
            x = x.copy()
            items = []
            for v in vs:
                if v[0] == 'star' and v[1][0] == 'L' and x.heap.get(v[1][1]) is not None:
                    items.extend(x.heap[v[1][1]])
                elif v[0] == 'star':
                    items.append(('pre', v[1]))
                else:
                    items.append(v)
            res.append((x, self.newlist(x, items)))
        return res

    def e_Starred(self, e, st, fr):
        return [(x, v if is_raise(v) else ('star', v)) for x, v in self.ev(e.value, st, fr)]

    def e_Set(self, e, st, fr):
        return [(x, vs if is_raise(vs) else ('set',) + tuple(vs)) for x, vs in self.evs(e.elts, st, fr)]

    def e_Dict(self, e, st, fr):
        return [(st, ('dict', id(e)))]

    def e_Lambda(self, e, st, fr):
        return [(st, self.closure(e, fr))]

    def e_NamedExpr(self, e, st, fr):
        res = []
        for x, v in self.ev(e.value, st, fr):
            if not is_raise(v):
                x = x.copy()
                self.assign(e.target, v, x, fr)
            res.append((x, v))
        return res

    def e_IfExp(self, e, st, fr):
        res = []
        for x, b in self.cond(e.test, st, fr):
            if is_raise(b):
                res.append((x, b))
            else:
                res.extend(self.ev(e.body if b else e.orelse, x, fr))
        return res

    def e_BoolOp(self, e, st, fr):
        states, res = [(st, None)], []
        for i, sub in enumerate(e.values):
            nxt = []
            for x, _ in states:
                for y, v in self.ev(sub, x, fr):
                    if is_raise(v) or i == len(e.values) - 1:
                        res.append((y, v))
                        continue
                    for z, b in self.truth(v, y):
                        if b == isinstance(e.op, ast.Or):
                            res.append((z, v))
                        else:
                            nxt.append((z, None))
            states = nxt
        return res

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [(x, b if is_raise(b) else ('c', not b)) for x, b in self.cond(e.operand, st, fr)]
        res = []
        for x, v in self.ev(e.operand, st, fr):
            if not is_raise(v):
                if v[0] == 'c' and isinstance(v[1], (int, float)) and isinstance(e.op, ast.USub):
                    v = ('c', -v[1])
                else:
                    v = ('un', type(e.op).__name__, v)
            res.append((x, v))
        return res

    def e_Compare(self, e, st, fr):
        if len(e.ops) != 1:
            res = []
            for x, vs in self.evs([e.left] + e.comparators, st, fr):
                res.append((x, vs if is_raise(vs) else ('cmp', tuple(type(o).__name__ for o in e.ops), tuple(vs))))
            return res
        res = []
        for x, vs in self.evs([e.left, e.comparators[0]], st, fr):
            res.append((x, vs if is_raise(vs) else self.compare(type(e.ops[0]).__name__, vs[0], vs[1], x)))
        return res

    def compare(self, op, a, b, st):
        neg = op in ('NotEq', 'IsNot', 'NotIn')
        op = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}.get(op, op)
        v = None
        if op in ('Eq', 'Is'):
            if op == 'Is' and b == NONE and a[0] in ('L', 'T', 'F'):
                v = FALSE
            elif a[0] == 'c' and b[0] == 'c':
                v = ('c', a[1] == b[1])
            elif a == b:
                v = TRUE
            elif a[0] == 'len' and b == ('c', 0):
                v = ('not', ('truth', a[1]))
            elif b in (('T', ()),) or b == ('c', ''):
                v = ('not', ('truth', a))
            else:
                a, b = sorted((self.snap(st, a), self.snap(st, b)), key=repr)
                v = ('eq', a, b)
        elif op == 'In':
            v = ('in', a, self.snap(st, b))
        elif op == 'Gt' and a[0] == 'len' and b == ('c', 0) or op == 'GtE' and a[0] == 'len' and b == ('c', 1):
            v = ('truth', a[1])
        elif op == 'Lt' and b[0] == 'len' and a == ('c', 0):
            v = ('truth', b[1])
        elif op == 'Lt' and a[0] == 'len' and b == ('c', 1):
            v = ('not', ('truth', a[1]))
        else:
            v = ('cmp', op, self.snap(st, a), self.snap(st, b))
        if neg:
            v = ('c', not v[1]) if v[0] == 'c' else v[1] if v[0] == 'not' else ('not', v)
        return v

    def cond(self, e, st, fr):
        """[(state, True | False)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, b if is_raise(b) else not b) for x, b in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            states, res = [st], []
            for i, sub in enumerate(e.values):
                nxt = []
                for x in states:
                    for y, b in self.cond(sub, x, fr):
                        if is_raise(b) or i == len(e.values) - 1 or b == isinstance(e.op, ast.Or):
                            res.append((y, b))
                        else:
                            nxt.append(y)
                states = nxt
            return res
        res = []
        for x, v in self.ev(e, st, fr):
            if is_raise(v):
                res.append((x, v))
            else:
                res.extend(self.truth(v, x))
        return res

    def truth(self, v, st):
        if v[0] == 'c':
            return [(st, bool(v[1]))]
        if v[0] == 'T':
            return [(st, bool(v[1]))]
        if v[0] == 'F':
            return [(st, True)]
        if v[0] == 'not':
            return [(x, not b) for x, b in self.truth(v[1], st)]
        if v[0] == 'L':
            items = st.heap.get(v[1])
            if items is not None:
                if not items:
                    return [(st, False)]
                if any(i[0] not in ('pre',) for i in items):
                    return [(st, True)]
        if v[0] == 'truth':
            return self.truth(v[1], st)
        if v[0] == 'rev' or v[0] == 'len':
            return self.truth(v[1], st)
        if v[0] == 'call' and v[1] == ('n', 'bool') and len(v[2]) == 1:
            return self.truth(v[2][0], st)
        key = self.snap(st, v)
        if key in st.know:
            return [(st, st.know[key])]
        a, b = st.copy(), st.copy()
        a.know[key], b.know[key] = True, False
        return [(a, True), (b, False)]

    def e_BinOp(self, e, st, fr):
        res = []
        for x, vs in self.evs([e.left, e.right], st, fr):
            if is_raise(vs):
                res.append((x, vs))
                continue
            x = x.copy()
            res.append((x, self.binop(e.op, vs[0], vs[1], x)))
        return res

    def binop(self, op, a, b, st):
        if isinstance(op, ast.Add):
            if a[0] == 'L' and b[0] == 'L':
                p, q = st.heap.get(a[1]), st.heap.get(b[1])
                if p is not None and q is not None:
                    return self.newlist(st, p + q)
            if a[0] == 'T' and b[0] == 'T':
                return ('T', a[1] + b[1])
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return ('c', a[1] + b[1])
                except TypeError:
                    pass
            return ('add', self.snap(st, a), self.snap(st, b))
        sym = {'Sub': '-', 'Mult': '*'}.get(type(op).__name__, type(op).__name__)
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int) and sym == '-':
            return ('c', a[1] - b[1])
        return ('bin', sym, self.snap(st, a), self.snap(st, b))

    # comprehensions ---------------------------------------------------------------------

    def comp(self, e, elts, kind, st, fr):
        if len(e.generators) != 1 or e.generators[0].is_async:
            st = st.copy()
            st.note('unknown', 'comprehension')
            return [(st, ('x', unparse(e)))]
        g = e.generators[0]
        res = []
        for x, seq in self.evseq(g.iter, st, fr):
            if is_raise(seq):
                res.append((x, seq))
                continue
            src, elem = self.element(seq)
            y = x.copy()
            env = len(y.envs) + 1
            y.envs[env] = {}
            y.up[env] = fr.env
            inner = Frame(env, fr.func, fr.up, fr.on_yield, fr.module, fr.cls)
            inner.mayraise = fr.mayraise
            for k in [k for k in y.know if mentions(k, elem)]:
                del y.know[k]
            y.trace = ()
            self.assign(g.target, elem, y, inner)
            out = [(y, None)]
            keep = []
            vals = set()
            alts = []
            for c in g.ifs:
                nxt = []
                for z, _ in out:
                    for w, b in self.cond(c, z, inner):
                        if b is True:
                            nxt.append((w, None))
                        else:
                            keep.append(w)
                out = nxt
            for w in keep:
                alts.append((frozenset((k, v) for k, v in w.know.items() if y.know.get(k) != v), w.trace, 'next'))
            for z, _ in out:
                for w, vs in self.evs(elts, z, inner):
                    if is_raise(vs):
                        continue
                    k = frozenset((a, b) for a, b in w.know.items() if y.know.get(a) != b)
                    alts.append((k, w.trace, 'next'))
                    vals.add((k, tuple(self.snap(w, v) for v in vs)))
            alts = dedup(alts)
            x = x.copy()
            if any(a[1] for a in alts):
                x.event('for', self.snap(x, src), alts)
            src = self.snap(x, src)
            vs = {v for _, v in vals}
            if kind != 'dict' and vs == {(('el', base_seq(src)),)} and not g.ifs:
                res.append((x, src))
            else:
                self.comps.setdefault(id(e), set()).update(vals)
                res.append((x, ('comp', src, id(e))))
        return res

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, [e.elt], 'gen', st, fr)

    e_ListComp = e_SetComp = e_GeneratorExp

    def e_DictComp(self, e, st, fr):
        return self.comp(e, [e.key, e.value], 'dict', st, fr)

    # generators ------------------------------------------------------------------------

    def e_Yield(self, e, st, fr):
        res = []
        for x, v in (self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]):
            if is_raise(v):
                res.append((x, v))
                continue
            for y, o in fr.on_yield(x, v, fr):
                res.append((y, NONE if o is NEXT else ('!raise', o[1]) if o[0] == 'raise' else NONE))
        return res

    def e_YieldFrom(self, e, st, fr):
        res = []
        for x, v in self.ev(e.value, st, fr):
            if is_raise(v):
                res.append((x, v))
            elif v[0] == 'gen':
                for y, o in self.run_closure(v[1], v[2], v[3], x, fr, fr.on_yield):
                    res.append((y, ('!raise', o[1]) if o is not NEXT and o[0] == 'raise' else NONE))
            elif v[0] == 'visited':
                y = x.copy()
                y.event('visit', v[1], v[2])
                res.append((y, NONE))
            else:
                y = x.copy()
                if v[0] == 'L' and self.finite(v, y) is not None or v[0] == 'T' and self.finite(v, y) is not None:
                    states = [y]
                    for item in self.finite(v, y):
                        states = [z for s in states for z, o in fr.on_yield(s, item, fr)]
                    res.extend((s, NONE) for s in states)
                    continue
                y.event('yieldall', self.snap(y, v))
                res.append((y, NONE))
        return res

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # calls -----------------------------------------------------------------------------

    def e_Call(self, e, st, fr):
        res = []
        func = e.func
        args = [a for a in e.args]
        kws = [k for k in e.keywords]
        if isinstance(func, ast.Attribute):
            head = [func.value]
        else:
            head = [func]
        for x, vs in self.evs(head + args + [k.value for k in kws], st, fr):
            if is_raise(vs):
                res.append((x, vs))
                continue
            f, pos = vs[0], vs[1:1 + len(args)]
            kw = {k.arg: v for k, v in zip(kws, vs[1 + len(args):])}
            x = x.copy()
            if isinstance(func, ast.Attribute):
                res.extend(self.method(e, f, func.attr, pos, kw, x, fr))
            else:
                res.extend(self.apply(e, f, pos, kw, x, fr))
        return res

    def mutated(self, lst, st):
        if lst[1] in st.given:
            st.note('given', lst[1])

    def pop(self, lst, st):
        items = st.heap.get(lst[1])
        if items is None:
            return ('popped',)
        if items and items[-1][0] != 'pre':
            st.heap[lst[1]] = items[:-1]
            return items[-1]
        if items:
            p = items[-1]
            st.heap[lst[1]] = items[:-1] + (('pre', ('less', p)),)
            return ('last', p, -1)
        st.heap[lst[1]] = None
        return ('popped',)

    def append(self, lst, v, st):
        items = st.heap.get(lst[1])
        if items is None:
            return
        if items and items[-1][0] == 'pre' and items[-1][1][:1] == ('less',) and v == ('last', items[-1][1][1], -1):
            st.heap[lst[1]] = items[:-1] + (items[-1][1][1],)
        else:
            st.heap[lst[1]] = items + (v,)

    def extend(self, lst, v, st, fr):
        self.mutated(lst, st)
        items = st.heap.get(lst[1])
        if items is None:
            return
        more = None
        if v[0] == 'T':
            more = v[1]
        elif v[0] == 'L':
            more = st.heap.get(v[1])
        if more is not None and not any(m[0] == 'star' for m in more):
            st.heap[lst[1]] = items + tuple(more)
        else:
            st.heap[lst[1]] = items + (('pre', ('all', self.snap(st, v))),)

    def method(self, e, obj, name, pos, kw, st, fr):
        if obj[0] == 'L':
            items = st.heap.get(obj[1])
            if name == 'append' and len(pos) == 1:
                self.mutated(obj, st)
                self.append(obj, pos[0], st)
                return [(st, NONE)]
            if name == 'pop':
                self.mutated(obj, st)
                if not pos or pos[0] == ('c', -1):
                    return [(st, self.pop(obj, st))]
                st.heap[obj[1]] = None
                return [(st, ('popped',))]
            if name == 'copy':
                if items is None:
                    return [(st, ('lost',))]
                return [(st, self.newlist(st, items))]
            if name == 'extend' and len(pos) == 1:
                self.extend(obj, pos[0], st, fr)
                return [(st, NONE)]
            if name in ('reverse', 'sort', 'clear', 'insert', 'remove', '__setitem__', '__delitem__'):
                self.mutated(obj, st)
                st.heap[obj[1]] = () if name == 'clear' else None
                return [(st, NONE)]
            return [(st, ('call', ('at', self.snap(st, obj), name), tuple(self.snap(st, p) for p in pos), ()))]
        if name == 'get' and pos and obj[0] != 'n' or name == 'get' and pos and self.dictlike(obj):
            key = ('in', pos[0], obj)
            dflt = pos[1] if len(pos) > 1 else NONE
            res = []
            for x, b in self.truth(key, st):
                res.append((x, self.subscript(obj, pos[0], x) if b else dflt))
            return res
        if name == 'keys' and not pos:
            return [(st, obj)]
        if name == 'copy' and not pos and not kw and obj[0] == 'n' and 'path' in obj[1]:
            return [(st, self.newlist(st, (('pre', obj),)))]
        if name == '__reversed__':
            return [(st, rev(obj))]
        g = self.resolve_method(obj, name, fr)
        if g is not None:
            return self.call_func(e, g, [obj] + list(pos), kw, st, fr)
        f = self.attribute(obj, name, st)
        return self.apply(e, f, pos, kw, st, fr)

    def dictlike(self, obj):
        return True

    def resolve_method(self, obj, name, fr) -> Optional[Func]:
        c = self.class_of(obj, fr)
        if c is None:
            return None
        g = self.ix.lookup(c, name)
        if g is None or g.is_property or g.is_static or name in self.opaque or not self.follow(g):
            return None
        return g

    def class_of(self, obj, fr):
        if obj == ('n', 'self') and fr.cls is not None:
            return fr.cls
        if obj[0] == 'el' and obj[1][0] == 'at' and obj[1][2] == '_children':
            return self.ix.cls('nodetree', 'Node')
        return None

    def apply(self, e, f, pos, kw, st, fr):
        if f[0] == 'F':
            return self.call_closure(e, f, pos, kw, st, fr)
        if f[0] == 'n':
            name = f[1]
            v = self.builtin(name, pos, kw, st, fr)
            if v is not None:
                return v
            g = self.ix.resolve_func(fr.module, name) if fr.module is not None else None
            if g is not None and g.cls is None and name not in self.opaque and self.follow(g):
                return self.call_func(e, g, pos, kw, st, fr)
        elif f[0] == 'at' and f[1] == ('n', 'self') and fr.cls is not None and f[2] not in self.opaque:
            g = self.ix.lookup(fr.cls, f[2])
            if g is not None and not g.is_property and self.follow(g):
                return self.call_func(e, g, [f[1]] + list(pos), kw, st, fr)
        return self.unknown_call(e, f, pos, kw, st, fr)

    def follow(self, g: Func) -> bool:
        if not self.inline or sum(1 for n in ast.walk(g.node) if isinstance(n, ast.stmt)) > 60:
            return False
        return not self.interest or any(
            isinstance(n, ast.Attribute) and n.attr in self.interest or isinstance(n, ast.Name) and n.id in self.interest
            or isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(g.node))

    def builtin(self, name, pos, kw, st, fr):
        if name == 'reversed' and len(pos) == 1:
            return [(st, rev(self.listed(pos[0], st)))]
        if name in ('tuple', 'iter') and len(pos) == 1:
            return [(st, self.listed(pos[0], st))]
        if name == 'list' and len(pos) == 1:
            v = pos[0]
            if v[0] == 'L':
                items = st.heap.get(v[1])
                return [(st, self.newlist(st, items) if items is not None else ('lost',))]
            return [(st, v)]
        if name == 'list' and not pos:
            return [(st, self.newlist(st, ()))]
        if name == 'len' and len(pos) == 1:
            v = pos[0]
            if v[0] == 'T' and not any(x[0] == 'star' for x in v[1]):
                return [(st, ('c', len(v[1])))]
            return [(st, ('len', self.snap(st, v)))]
        if name == 'range':
            return [(st, ('range', tuple(pos)))]
        if name == 'enumerate' and pos:
            return [(st, ('enumerate', self.listed(pos[0], st)))]
        if name == 'zip' and pos and not kw:
            return [(st, ('zip', tuple(self.listed(p, st) for p in pos)))]
        if name == 'cast' and len(pos) == 2:
            return [(st, pos[1])]
        if name == 'getattr' and 'AttributeError' in fr.mayraise:
            return None
        if name in PURE and name not in ('map', 'filter', 'sorted', 'next', 'any', 'all'):
            return [(st, ('call', ('n', name), tuple(self.snap(st, p) for p in pos), ()))]
        return None

    def listed(self, v, st):
        if v[0] == 'L' and self.finite(v, st) is None:
            return self.snap(st, v)
        return v

    def unknown_call(self, e, f, pos, kw, st, fr):
        v = ('call', self.snap(st, f), tuple(self.snap(st, p) for p in pos),
             tuple(sorted((k or '**', self.snap(st, p)) for k, p in kw.items())))
        st.event('do', v, tuple(self.snap(st, self.watched(w, st)) for w in self.watch))
        return self.results(v, st, fr)

    def watched(self, w, st):
        return st.attrs.get(w, ('lost', 0)) if w[0] != 'L' else w

    def results(self, v, st, fr):
        f = v[1]
        if 'AttributeError' in fr.mayraise and (f == ('n', 'getattr') or f[0] == 'at' and f[2] == '__getattribute__'):
            return [(st, v), (st.copy(), ('!raise', 'AttributeError'))]
        return [(st, v)]

    def call_func(self, e, g: Func, pos, kw, st, fr):
        i = id(g.node)
        self.closures[i] = (g.node, g.module, g.cls)
        return self.call_closure(e, ('F', i, None), pos, kw, st, fr)

    def call_closure(self, e, f, pos, kw, st, fr):
        node, module, cls = self.closures[f[1]]
        name = getattr(node, 'name', '<lambda>')
        args = self.bind_args(node, pos, kw, st)
        if args is None or name in self.opaque:
            return self.unknown_call(e, ('n', name), pos, kw, st, fr)
        if fr.on_stack(node) or self.recursive(node):
            self.visited.setdefault(name, f)
            snap = tuple((k, self.snap(st, v)) for k, v in sorted(args.items()))
            for k in self.gives.get(name, ()):
                if args.get(k, NONE)[0] == 'L':
                    st.given = st.given | {args[k][1]}
            if is_generator(node):
                return [(st, ('visited', name, snap))]
            st.event('visit', name, snap)
            return [(st, ('result', name, snap))]
        if fr.depth() > 5:
            return self.unknown_call(e, ('n', name), pos, kw, st, fr)
        if is_generator(node):
            return [(st, ('gen', f, tuple(sorted(args.items())), fr.env))]
        res = []
        for x, o in self.run_closure(f, tuple(args.items()), None, st, fr, None):
            if o is NEXT:
                res.append((x, NONE))
            elif o[0] == 'ret':
                res.append((x, o[1]))
            elif o[0] == 'raise':
                res.append((x, ('!raise', o[1])))
        return res

    def run_closure(self, f, args, _env, st, fr, on_yield):
        node, module, cls = self.closures[f[1]]
        st = st.copy()
        env = len(st.envs) + 1
        st.envs[env] = {}
        st.up[env] = f[2]
        self.defaults(node, st, env)
        for k, v in dict(args).items():
            st.envs[env][k] = v
        inner = Frame(env, node, fr, on_yield or fr.on_yield, module, cls)
        if isinstance(node, ast.Lambda):
            return [(x, ('raise', v[1]) if is_raise(v) else ('ret', v)) for x, v in self.ev(node.body, st, inner)]
        out = self.block(node.body, st, inner)
        return [(x, NEXT if o is not NEXT and o[0] == 'ret' and is_generator(node) else o) for x, o in out]

    def recursive(self, node):
        n = getattr(node, 'name', None)
        return n is not None and any(isinstance(c, ast.Call) and (
            isinstance(c.func, ast.Name) and c.func.id == n or
            isinstance(c.func, ast.Attribute) and c.func.attr == n) for c in ast.walk(node))

    def defaults(self, node, st, env):
        a = node.args
        ps = a.posonlyargs + a.args
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + \
                [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, ast.Constant):
                st.envs[env][p.arg] = ('c', d.value)
            elif isinstance(d, ast.Name):
                st.envs[env][p.arg] = ('n', d.id)
            else:
                st.envs[env][p.arg] = ('x', unparse(d))

    def bind_args(self, node, pos, kw, st):
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if any(p[0] == 'star' for p in pos) or None in kw:
            return None
        if len(pos) > len(ps) and a.vararg is None:
            return None
        args = dict(zip(ps, pos))
        if a.vararg is not None:
            args[a.vararg.arg] = ('T', tuple(pos[len(ps):]))
        for k, v in kw.items():
            args[k] = v
        return args


def as_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return t


def is_exit(o):
    return o == ('exit',)


def rev(s):
    return s[1] if s[0] == 'rev' else ('rev', s)


def base_seq(s):
    while isinstance(s, tuple) and s and s[0] == 'rev':
        s = s[1]
    return s


_NL: Dict[int, frozenset] = {}


def nonlocals(node):
    r = _NL.get(id(node))
    if r is None:
        s = set()
        body = node.body if isinstance(node.body, list) else []
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                s.update(n.names)
            if isinstance(n, FUNC + (ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        r = _NL[id(node)] = frozenset(s)
    return r


_GEN: Dict[int, bool] = {}


def is_generator(node) -> bool:
    r = _GEN.get(id(node))
    if r is None:
        r = False
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, FUNC + (ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        _GEN[id(node)] = r
    return r


def dedup(alts):
    return tuple(sorted(set(alts), key=repr))
