"""C13: tree traversals visit every node once, in order, and with the right path."""
from __future__ import annotations
import ast
import itertools
from typing import Dict, List, Optional

from sa.src import Index, Func, FUNC, dotted, nested_funcs, own_nodes, unparse
from sa.walk import (Walk, St, Frame, Unrecognised, NONE, TRUE, FALSE, mentions, rev, base_seq, is_generator,
                     is_raise)

EXPLANATION = (
    'Abstract interpretation of the traversal functions for an arbitrary node with arbitrary children (sa/walk.py): loops '
    'over the children are executed for one arbitrary child, recursive calls become events. For every combination of '
    'the conditions (matches, is skipped, has children, root included, reversed) the sequence of events at the node '
    'and at an arbitrary child is compared with what pre-order traversal demands: each child is handed out or tested '
    'once, before its descendants, its subtree is entered once unless skipped, in the direction asked for, and the '
    'path is the path of the parent plus the child. The recursive function is verified separately for an arbitrary '
    'inner node (induction over the tree). For traverse(): children before parents, transformations of "<", the key or '
    '"*", and ">" in order, the same whether or not they are cached, path as at entry. For the compiler: one call of '
    'one method per node with the path ending with the node, attributes once, fallback compiles every child once. All '
    'functions that lengthen a path leave it as they found it, handlers of exceptions that passed through a compilation '
    'restore it, and a path that a generator has yielded is not changed afterwards.')
ASSUMPTIONS = ['match- and skip-functions do not change the tree or the path',
               'functions of forms the analysis does not follow (explicit stacks) are counted, not judged']

SELF, PRE, N = ('n', 'self'), ('pre', 'P'), ('n', 'N')


def where(f: Func) -> str:
    return f'{f.module.rel}:{f.node.lineno} {f.qual}'


def kids(n):
    return ('at', n, '_children')


# -- generators over the nodes of a tree -------------------------------------------------------

class Spec:
    """what a traversal is expected to do at one node"""

    def __init__(self, root, path, match, skip, kind, hide=False):
        self.root, self.path = root, path
        self.other = False
        self.hide = hide            # the root of a subtree that is skipped is not handed out, either
        self.match, self.skip, self.kind = match, skip, kind
        self.kids = kids(root)
        self.child = ('el', self.kids)
        self.cpath = path + (self.child,) if path is not None else None

    def elem(self, child: bool):
        if self.kind == 'path':
            return self.cpath if child else self.path
        return self.child if child else self.root

    def atom(self, key, val) -> bool:
        if key == ('n', 'include_root'):
            return val['inc']
        if key == ('n', 'reverse'):
            return val['rev']
        if key == self.kids:
            return val['kn']
        if key == kids(self.child):
            return val['kc']
        if key[0] == 'call' and key[1][0] == 'n' and len(key[2]) == 1 and not key[3]:
            name, arg = key[1][1], key[2][0]
            for p, which in ((self.match, 'm'), (self.skip, 's')):
                if p is not None and name == p:
                    if arg == self.elem(True):
                        return val[which + 'c']
                    if arg == self.elem(False):
                        return val[which + 'n']
                    raise Bad(f'{name}() is called with something else than the '
                              f'{"path" if self.kind == "path" else "node"}')
        if independent(key, (self.root, self.child)):
            self.other = True
            return None
        raise Unrecognised('condition ' + str(key)[:60])


class Bad(Exception):
    pass


def independent(key, nodes) -> bool:
    """a condition that has nothing to do with matching, skipping or the presence of children"""
    t = key[1] if key[0] in ('eq', 'in', 'cmp') and len(key) > 2 else key
    for x in nodes:
        if mentions(key, kids(x)) or mentions(key, ('at', x, '_result')) or mentions(key, ('at', x, 'result')):
            return key[0] == 'cmp' and key[2] == ('len', kids(x)) and key[3][0] == 'c' and \
                isinstance(key[3][1], int) and key[3][1] >= {'Gt': 1, 'GtE': 2}.get(key[1], 99)
    return any(mentions(key, ('at', x, a)) for x in nodes for a in ('name', 'pos', '_pos', '_attributes', 'attr', 'has_attr'))


def consistent(know, spec, val):
    for k, b in know:
        v = spec.atom(k, val)
        if v is not None and v != b:
            return False
    return True


def behaviour(trace, spec: Spec, val, inner=False):
    res = []
    for e in trace:
        if e[0] == 'do':
            continue
        if e[0] == 'yield':
            v = e[1]
            if v == spec.elem(False):
                res.append('Yn')
            elif v == spec.elem(True) and inner:
                res.append('Yc')
            elif spec.kind == 'path' and v in (spec.root, spec.child) or \
                    spec.kind == 'node' and v in (spec.path, spec.cpath):
                raise Bad('a node is yielded instead of a path or the other way around')
            elif v[0] == 'list' or v[0] == 'n' or v[0] == 'el':
                raise Bad('something else than the path of the node is yielded' if spec.kind == 'path' else
                          'something else than the node is yielded')
            else:
                raise Unrecognised('yield')
        elif e[0] == 'visit':
            vals = [v for _, v in e[2]]
            c, n = (spec.cpath, spec.path) if any(v[0] == 'list' for v in vals) or spec.kind == 'path' \
                else (spec.child, spec.root)
            if inner and (c in vals or spec.kind == 'node' and spec.child in vals):
                res.append(('V', e[1], True))
            elif n in vals:
                res.append(('V', e[1], False))
            elif any(v[0] == 'list' for v in vals):
                raise Bad('the recursive call does not get the path of the parent plus the child')
            else:
                raise Unrecognised('recursion')
        elif e[0] == 'for':
            seq, alts = e[1], e[2]
            if not any(relevant(a[1]) or a[2] != 'next' for a in alts):
                continue
            if part_of(seq, spec.kids) and sum(1 for x in trace if relevant((x,))) == 1:
                raise Bad('not all children are run through in order')
            if base_seq(seq) != spec.kids:
                raise Unrecognised('loop over ' + str(seq)[:60])
            outs = set()
            spec.other = False
            for know, tr, kind in alts:
                if consistent(know, spec, val):
                    b = behaviour(tr, spec, val, True)
                    outs.add(b + (() if kind == 'next' else ('stop',)))
            if len(outs) > 1 and spec.other:
                raise Bad('what is done with a child depends on something else than whether it matches, is skipped or '
                          'has children')
            if len(outs) != 1:
                raise Unrecognised('ambiguous loop')
            b = outs.pop()
            if val['kn'] and b:
                res.append(('for', seq[0] == 'rev', b))
        elif e[0] in ('set', 'store'):
            continue
        elif e[0] == 'leave':
            continue
        else:
            raise Unrecognised(e[0])
    return tuple(res)


def part_of(seq, whole) -> bool:
    seq = base_seq(seq)
    if seq[0] == 'call' and seq[1] in (('n', 'set'), ('n', 'frozenset'), ('n', 'sorted')) and seq[2]:
        return base_seq(seq[2][0]) == whole
    return seq[0] == 'slice' and base_seq(seq[1]) == whole and (seq[2] not in (NONE, ('c', 0)) or seq[3] != NONE)


def relevant(trace):
    return any(e[0] in ('yield', 'visit', 'yieldall') or e[0] in ('for', 'while') and any(relevant(a[1]) for a in e[-1])
               for e in trace)


def descend(val, spec):
    """all descendants of the node"""
    body = []
    if not (spec.hide and val['sc']):
        if val['mc']:
            body.append('Yc')
        if val['kc'] and not val['sc']:
            body.append('Dc')
    return (('for', val['rev'], tuple(body)),) if val['kn'] and body else ()


def expected(val, conv, spec):
    """conv: descendants only, with the node unless its subtree is skipped, with the node (skipping is up to the caller)"""
    if conv == 'descendants':
        return descend(val, spec)
    return (('Yn',) if val['mn'] else ()) + (descend(val, spec) if conv == 'all' or not val['sn'] else ())


def normal(b, val, convs, spec):
    """what visits of nodes stand for is filled in"""
    res = []
    for x in b:
        if x[0] == 'V':
            conv = convs[x[1]]
            if not x[2]:
                res.extend(expected(val, conv, spec))
            else:
                if conv != 'descendants' and val['mc']:
                    res.append('Yc')
                if val['kc'] and (conv != 'node' or not val['sc']):
                    res.append('Dc')
        elif isinstance(x, tuple):
            body = normal(x[2], val, convs, spec)
            if body:
                res.append(('for', x[1], body))
        else:
            res.append(x)
    return tuple(res)


def valuations(spec, driver: bool):
    names = ['rev', 'kn', 'kc'] + (['inc'] if driver else []) + (['mn', 'mc'] if spec.match else []) \
        + (['sn', 'sc'] if spec.skip else [])
    for bits in itertools.product((False, True), repeat=len(names)):
        v = dict(zip(names, bits))
        for k, d in (('mn', True), ('mc', True), ('sn', False), ('sc', False), ('inc', False)):
            v.setdefault(k, d)
        yield v


def describe(val, spec):
    t = []
    if val['inc']:
        t += ['the root matches' if val['mn'] else 'the root does not match',
              'is to be skipped' if val['sn'] else 'is not to be skipped']
    if spec.match:
        t.append('the child ' + ('matches' if val['mc'] else 'does not match'))
    if spec.skip:
        t.append('is to be skipped' if val['sc'] else 'is not to be skipped')
    t.append('has children' if val['kc'] else 'has no children')
    t.append('include_root' if val['inc'] else 'without root')
    t.append('in reverse order' if val['rev'] else 'in forward order')
    return ', '.join(t)


def words(b):
    t = []
    for x in b:
        if isinstance(x, tuple):
            t.append(('for each child in reverse order: ' if x[1] else 'for each child: ') + words(x[2]))
        else:
            t.append({'Yn': 'yield the node', 'Yc': 'yield the child', 'Dc': 'enter the child', 'stop': 'stop'}[x])
    return '; '.join(t) or 'nothing'


def compare(states, spec, conv, convs):
    """None or a text that says what is wrong (conv None: the function that is called by the user)"""
    n = 0
    for val in valuations(spec, conv is None):
        want = expected(val, conv or ('node' if val['inc'] else 'descendants'), spec)
        hit = False
        for s, o in states:
            if not consistent(s.know.items(), spec, val):
                continue
            if o is not None and o[0] == 'raise':
                continue
            hit = True
            got = normal(behaviour(s.trace, spec, val), val, convs, spec)
            n += 1
            if got != want:
                return f'{describe(val, spec)}: expected "{words(want)}", found "{words(got)}"', n
        if not hit:
            raise Unrecognised('no state for a combination of conditions')
    return None, n


WALKERS = [  # function, kind, match-parameter, skip-parameter, how far
    ('nodetree', 'Node.walk_tree', 'node', None, None, 'all'),
    ('nodetree', 'Node.select_if', 'node', 'match_func', 'skip_func', 'all'),
    ('nodetree', 'Node.walk_tree_paths', 'path', None, None, 'all'),
    ('nodetree', 'Node.select_path_if', 'path', 'match_func', 'skip_func', 'all'),
    ('nodetree', 'select_path_if', 'path', 'match_func', 'skip_func', 'inner'),
]


def lists_of(w, st, t):
    """terms ('list', ...) become lists"""
    if isinstance(t, tuple) and t and t[0] == 'list':
        return w.newlist(st, t[1:])
    return t


def subst(t, a, b):
    if t == a:
        return b
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def visits(trace):
    for e in trace:
        if e[0] == 'visit':
            yield e
        elif e[0] in ('for', 'while'):
            for a in e[-1]:
                yield from visits(a[1])


def run_inner(w: Walk, st0: St, name, args, keep=False):
    """executes the recursive function for an arbitrary node"""
    f = w.visited[name]
    st = st0.copy()
    st.know = {k: b for k, b in st0.know.items() if keep and k[0] == 'in' and k[1][0] == 'c'}
    st.trace, st.given, st.notes = (), frozenset(), frozenset()
    vals = {}
    for k, v in args:
        vals[k] = lists_of(w, st, v)
    node, module, cls = w.closures[f[1]]
    fr = Frame(0, None, None, w.yielded, module, cls)
    st.envs.setdefault(0, {})
    st.up.setdefault(0, None)
    return w.run_closure(f, tuple(vals.items()), None, st, fr, w.yielded), vals


def walkers(ix: Index, rep):
    for m, q, kind, match, skip, extent in WALKERS:
        f = ix.func(m, q)
        rep.count('traversals')
        try:
            w = Walk(ix, interest=('_children', 'children', 'path'))
            start = w.start(f, {})
            spec = Spec(SELF, ('list', SELF), match, skip, kind, extent == 'inner')
            inner = {}
            for s, o in start:
                for e in visits(s.trace):
                    inner.setdefault((e[1], e[2]), s)
            # the recursive functions for an arbitrary node
            gspec = Spec(N, ('list', PRE, N), match, skip, kind, extent == 'inner')
            todo = [(name, args, s, spec) for (name, args), s in sorted(inner.items(), key=lambda x: repr(x[0]))]
            done = {}
            while todo:
                name, args, st, sp = todo.pop()
                vals = [v for _, v in args]
                if extent == 'inner' and sp is spec:
                    args = tuple((k, ('list', PRE, N) if k == 'path' or v[0] in ('list', 'lost') else v) for k, v in args)
                elif sp.child in vals or sp.cpath in vals or sp.root in vals or sp.path in vals:
                    args = tuple((k, ('list', PRE, N) if v in (sp.cpath, sp.path) else
                                  N if v in (sp.child, sp.root) and k != 'self' or v == sp.child else v) for k, v in args)
                else:
                    continue
                if (name, args) in done:
                    continue
                states, vals = run_inner(w, st, name, args)
                done[name, args] = states
                given = {k for k, v in vals.items() if v[0] == 'L' and any(v[1] in s.given for s, _ in states)}
                if given:
                    w.gives.setdefault(name, set()).update(given)
                if any(n[0] == 'given' for s, _ in states for n in s.notes):
                    rep.violation('changed-later', q, where(f), 'a path that has been yielded is changed afterwards')
                for s, o in states:
                    for e in visits(s.trace):
                        todo.append((e[1], e[2], s, gspec))
            if not done:
                raise Unrecognised('no recursion')
            names = sorted({n for n, _ in done})
            if len(names) > 3:
                raise Unrecognised('recursive functions')
            problem, good = None, None
            for choice in itertools.product(('descendants', 'node', 'all'), repeat=len(names)):
                convs = dict(zip(names, choice))
                bad = None
                for (name, args), states in sorted(done.items(), key=lambda x: repr(x[0])):
                    try:
                        bad, n = compare(states, gspec, convs[name], convs)
                        rep.ok(n=n)
                    except Bad as e:
                        bad = str(e)
                    if bad:
                        break
                if bad is None:
                    good = convs
                    break
                if problem is None or extent == 'inner' and choice[0] == 'all':
                    problem = bad
            if good is None:
                rep.violation('visit', q, where(f), f'below the root: {problem}')
                continue
            if w.gives:
                w.steps = 0
                start = w.start(f, {})
            if any(n[0] == 'given' for s, _ in start for n in s.notes):
                rep.violation('changed-later', q, where(f), 'a path that has been yielded is changed afterwards')
            else:
                rep.ok(f'{q}: paths that have been yielded are not changed')
            if extent == 'inner':
                continue
            try:
                problem, n = compare(start, spec, None, good)
            except Bad as e:
                problem, n = str(e), 1
            rep.ok(n=n)
            if problem:
                rep.violation('visit', q, where(f), f'at the root: {problem}')
        except Unrecognised as e:
            rep.count('not followed')
            rep.ok(f'{q}: not followed ({e})')


def children_iterator(ix: Index, rep):
    """Node.select_children: every child that matches, once, in the direction asked for"""
    f = ix.func('nodetree', 'Node.select_children')
    spec = Spec(SELF, ('list', SELF), 'match', None, 'node')
    try:
        w = Walk(ix, interest=('_children', 'children'))
        states = w.start(f, {})
        for s, o in states:
            rep.count('states of select_children')
            r = s.know.get(('n', 'reverse'), False)
            loops = [e for e in s.trace if e[0] == 'for' and relevant((e,))]
            vs = [e for e in s.trace if e[0] == 'visit']
            if len(vs) == 1 and not loops and vs[0][1] == f.name:       # yields what another call of it yields
                a = dict(vs[0][2])
                d = a.get('reverse', FALSE)
                if a.get('self') != SELF or d not in (TRUE, FALSE, ('n', 'reverse')):
                    raise Unrecognised('recursion')
                if (d == TRUE) != r:
                    rep.violation('visit', f.qual, where(f), 'the children are not run through in the direction asked for')
                continue
            if any(e[0] in ('while', 'visit') for e in s.trace):
                raise Unrecognised('loop')
            if len(loops) != 1:
                raise Unrecognised('loops')
            seq, alts = loops[0][1], loops[0][2]
            src, back, elem = base_seq(seq), seq[0] == 'rev', spec.child
            if src[0] == 'visited' and src[1] == f.name:
                a = dict(src[2])
                if a.get('self') != SELF or a.get('criteria', a.get('criterion')) != ('n', f.params()[1]):
                    raise Unrecognised('sequence')
                d = a.get('reverse', FALSE)
                if d not in (TRUE, FALSE):
                    raise Unrecognised('sequence')
                back, elem = back != (d == TRUE), ('el', src)
            elif part_of(src, spec.kids):
                rep.violation('visit', f.qual, where(f), 'not all children are run through in order')
                continue
            elif src != spec.kids:
                raise Unrecognised('sequence')
            if back != r:
                rep.violation('visit', f.qual, where(f), 'the children are not run through in the direction asked for')
            for know, tr, kind in sorted(alts, key=lambda x: x[2] == 'next'):
                ys = [e[1] for e in tr if e[0] == 'yield']
                tests = [b for k, b in know if k[0] == 'call' and k[2] == (elem,)]
                if len(tests) != len(know) and kind == 'next':
                    raise Unrecognised('condition')
                if ys != ([elem] if all(tests) else []) or kind != 'next':
                    rep.violation('visit', f.qual, where(f), 'a child that matches is not yielded exactly once')
                else:
                    rep.ok()
    except Unrecognised as e:
        rep.count('not followed')


# -- evaluation --------------------------------------------------------------------------------

def evaluation(ix: Index, rep):
    for q, withpath in (('Node.evaluate', False), ('Node.evaluate_path', True)):
        top = ix.func('nodetree', q)
        rep.count('traversals')
        try:
            w = Walk(ix, interest=('_children', 'children', 'actions', 'path'),
                     opaque={'deprecation_warning', 'evaluate_path' if not withpath else ''})
            start = w.start(top, {'path': ('T', ())} if not withpath else {})
            for s, o in start:
                vs = [e for e in s.trace if e[0] == 'visit']
                if o is not None and o[0] == 'raise':
                    continue
                if len(vs) != 1:
                    raise Unrecognised('recursive call')
                args = dict(vs[0][2])
                if args.get('self') != SELF:
                    raise Unrecognised('recursive call')
                if not (o is not None and o[0] == 'ret' and o[1][0] == 'result'):
                    rep.violation('evaluate', q, where(top), 'the result of the evaluation is not returned')
                if withpath and not s.know.get(('n', 'path')):
                    if ('list', SELF) not in args.values():
                        rep.violation('path', q, where(top), 'without a given path, the path is not [self]')
                    else:
                        rep.ok()
            name, args = next((e[1], dict(e[2])) for s, o in start for e in visits(s.trace))
            node = w.closures[w.visited[name][1]][0]
            st0 = start[0][0]
            path = ('list', PRE, SELF)
            pname = next((k for k, v in args.items() if k != 'self' and (v[0] == 'list' or v == ('n', 'path'))), None)
            gargs = {k: (path if k == pname else v) for k, v in args.items()}
            states, vals = run_inner(w, st0, name, tuple(gargs.items()))
            child = ('el', kids(SELF))
            want = {k: (child if k == 'self' else path + (child,) if k == pname else v) for k, v in args.items()}
            here = f'{ix.module("nodetree").rel}:{node.lineno} Node.{name}'
            for s, o in states:
                if o is None or o[0] != 'ret':
                    continue
                rep.count('states of evaluation')
                has = s.know.get(kids(SELF))
                loops = [e for e in s.trace if e[0] == 'for' and any(True for _ in visits((e,)))]
                calls = [e for e in s.trace if e[0] == 'do' and mentions(e[1][1], ('n', 'actions'))
                         and e[1][1][0] == 'sub']
                if any(e[0] == 'while' for e in s.trace) or any(e[0] == 'visit' for e in s.trace):
                    raise Unrecognised('form of the recursion')
                if has is None:
                    if not loops:
                        raise Unrecognised('no recursion')
                    has = True
                if has:
                    if len(loops) != 1:
                        rep.violation('evaluate', name, here, 'the children are not evaluated exactly once')
                        continue
                    seq, alts = loops[0][1], loops[0][2]
                    if part_of(seq, kids(SELF)):
                        rep.violation('evaluate', name, here, 'not all children are evaluated in order')
                        continue
                    if base_seq(seq) != kids(SELF):
                        raise Unrecognised('sequence')
                    if seq[0] == 'rev':
                        rep.violation('evaluate', name, here, 'the children are evaluated in reverse order')
                        continue
                    for know, tr, kind in alts:
                        v = [e for e in tr if e[0] == 'visit']
                        if len(v) != 1 or kind != 'next' or dict(v[0][2]) != want:
                            rep.violation('evaluate', name, here, 'not every child is evaluated once with the same '
                                          'actions' + (' and the path of its parent plus the child' if pname else ''))
                        else:
                            rep.ok()
                if len(calls) != 1:
                    rep.violation('evaluate', name, here, 'not exactly one action is called for a node')
                    continue
                a = calls[0][1][2]
                if o[1] != calls[0][1]:
                    rep.violation('evaluate', name, here, 'the result of the action is not the result of the evaluation')
                if pname and not mentions(a, path):
                    if any(t[0] == 'lost' for t in comps(a)):
                        raise Unrecognised('arguments of the action')
                    rep.violation('path', name, here, 'the action does not get the path of the node')
                if has and not pname and any(x[0] == 'slice' and x[2:] != (NONE, NONE, NONE) and any(
                        True for _ in comps(x)) for x in terms(a)):
                    rep.violation('evaluate', name, here, 'the action does not get the values of all children')
                if has and not any(True for _ in comps(a)):
                    raise Unrecognised('arguments of the action')
                rep.ok()
        except Unrecognised as e:
            rep.count('not followed')
            rep.ok(f'{q}: not followed ({e})')


def terms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from terms(x)


def comps(t):
    if isinstance(t, tuple):
        if t and t[0] in ('comp', 'fold', 'lost'):
            yield t
        for x in t:
            yield from comps(x)


# -- traverse() ---------------------------------------------------------------------------------

def sources(t, table, out: List):
    """the entries of the table a sequence of transformations is made of, in order"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'sub' and t[1] == table:
            out.append(t[2])
            return
        for x in t:
            sources(x, table, out)


def calls_of(trace, seq):
    """loops over the sequence with what is called in them"""
    for i, e in enumerate(trace):
        if e[0] == 'for' and e[1] == seq:
            yield i, e


def transformation(ix: Index, rep):
    f = ix.func('transform', 'traverse')
    q = 'traverse'
    try:
        w = Walk(ix, interest=('_children', 'children', 'path'))
        start = w.start(f, {})
        tree = ('n', 'tree')
        inner = {}
        for s, o in start:
            if o is not None and o[0] == 'raise':
                continue
            rep.count('states of traverse')
            ev = []
            for e in s.trace:
                if e[0] == 'visit':
                    ev.append(('visit', dict(e[2]), e[1]))
                elif e[0] == 'for' and e[1][0] == 'sub' and e[1][2] in (('c', '<<<'), ('c', '>>>')):
                    ev.append((e[1][2][1], e))
            vs = [e for e in ev if e[0] == 'visit']
            if len(vs) != 1:
                if any(e[0] == 'while' for e in s.trace):
                    raise Unrecognised('loop')
                rep.violation('visit', q, where(f), 'the tree is not traversed exactly once')
                continue
            if ('list', tree) not in vs[0][1].values():
                if not any(v[0] == 'list' for v in vs[0][1].values()):
                    raise Unrecognised('recursion')
                rep.violation('path', q, where(f), 'the traversal does not start with the path [tree]')
            inner.setdefault((vs[0][2], tuple(sorted(vs[0][1].items()))), s)
            tabs = {k[2] for k in s.know if k[0] == 'in' and k[1] in (('c', '<<<'), ('c', '>>>'))}
            for key, before in (('<<<', True), ('>>>', False)):
                present = any(k == ('in', ('c', key), t) and b for t in tabs for k, b in s.know.items())
                mine = [i for i, e in enumerate(ev) if e[0] == key]
                if tabs and not mine and not any(k == ('in', ('c', key), t) or k == t for t in tabs for k in s.know):
                    rep.violation('once', f'{q} {key}', where(f),
                                  f'the transformations of "{key}" are not called in every case')
                    continue
                if present and len(mine) != 1:
                    rep.violation('once', f'{q} {key}', where(f),
                                  f'the transformations of "{key}" are not called exactly once')
                elif present and (mine[0] < ev.index(vs[0])) != before:
                    rep.violation('order', f'{q} {key}', where(f), f'the transformations of "{key}" are called '
                                  f'{"after" if before else "before"} the traversal')
                elif present:
                    e = ev[mine[0]][1]
                    for know, tr, kind in e[2]:
                        do = [x for x in tr if x[0] == 'do' and x[1][1] == ('el', e[1])]
                        if len(do) != 1 or kind != 'next' or do[0][1][2] != (('list', tree),):
                            rep.violation('once', f'{q} {key}', where(f),
                                          f'a transformation of "{key}" is not called once with the path [tree]')
                        else:
                            rep.ok()
            if not tabs:
                rep.violation('once', q + ' <<<', where(f), 'the transformations of "<<<" and ">>>" are never called')
            if o is None or o[0] != 'ret' or o[1] != tree:
                rep.violation('visit', q + ' result', where(f), 'traverse() does not return the tree')
        path = ('list', PRE, N)
        for (name, args), st0 in sorted(inner.items(), key=repr):
            gargs = tuple((k, path if v == ('list', tree) else v) for k, v in args)
            states, vals = run_inner(w, st0, name, gargs, True)
            node = w.closures[w.visited[name][1]][0]
            here = f'{f.module.rel}:{node.lineno} {q}.{name}'
            plist = next((v for v in vals.values() if v[0] == 'L'), None)
            pname = next((k for k, v in gargs if v == path), None)
            if plist is None:
                raise Unrecognised('path')
            for s, o in states:
                if o is not None and o[0] == 'raise':
                    continue
                rep.count('states of traverse_recursive')
                if s.heap.get(plist[1]) != (PRE, N):
                    rep.violation('unbalanced', f'{q}.{name}', here, 'the path is not the same at the end')
                else:
                    rep.ok()
                recursion(rep, w, s, name, args, pname, path, here)
                sequence(rep, w, s, path, here)
    except Unrecognised as e:
        rep.count('not followed')
        rep.ok(f'{q}: not followed ({e})')


def recursion(rep, w, s, name, args, pname, path, here):
    q = f'traverse.{name}'
    if any(e[0] == 'while' and any(True for _ in visits((e,))) for e in s.trace) or any(e[0] == 'visit' for e in s.trace):
        raise Unrecognised('form of the recursion')
    loops = [(i, e) for i, e in enumerate(s.trace) if e[0] == 'for' and any(True for _ in visits((e,)))]
    k0 = kids(N)
    if not loops:
        if any(not b and (base_seq(k) == k0 or k[0] in ('fold', 'call') and mentions(k, k0)) for k, b in s.know.items()):
            rep.ok()
            return
        rep.violation('visit', q, here, 'the children of the node are not traversed')
        return
    if len(loops) > 1:
        rep.violation('visit', q, here, 'the children of a node are traversed more than once')
        return
    i, e = loops[0]
    seq = e[1]
    src, back = base_seq(seq), seq[0] == 'rev'
    if src[0] == 'fold':
        acc = ('acc', src[2][0], ('var', src[2][1], src[2][2]))
        for t in w.folds.get(src[2], set()):
            if t[0] == 'call' and t[1][0] == 'el' and len(t[2]) == 1 and not t[3]:
                if mentions(t[2][0], k0) and not mentions(t[2][0], acc):
                    rep.violation('filters', q, here, 'of the filters, only the last one has an effect')
                    return
                if t[2][0] != acc:
                    raise Unrecognised('filter')
            elif t != acc:
                raise Unrecognised('filter')
        fl = [x for x in s.trace[:i] if x[0] == 'for' and any(
            d[0] == 'do' and d[1][1] == ('el', base_seq(x[1])) for a in x[2] for d in a[1])]
        if any(x[1][0] == 'rev' for x in fl):
            rep.violation('filters', q, here, 'the filters are applied in reverse order')
        src = src[1]
    while src[0] == 'rev' or src[0] == 'call' and len(src[2]) == 1 and not src[3]:
        back = back != (src[0] == 'rev')
        src = src[1] if src[0] == 'rev' else src[2][0]         # a filter
    if part_of(src, k0):
        rep.violation('visit', q, here, 'not all children are traversed in order')
        return
    if src != k0:
        raise Unrecognised('sequence of children')
    if back:
        rep.violation('order', q, here, 'the children are traversed in reverse order')
        return
    want = path + (('el', base_seq(seq)),)
    for know, tr, kind in e[2]:
        v = [x for x in tr if x[0] == 'visit']
        if len(v) != 1 or kind != 'next':
            rep.violation('visit', q, here, 'not every child is traversed exactly once')
        elif dict(v[0][2]).get(pname) != want:
            rep.violation('path', q, here, 'the path handed to the traversal of a child is not the path of the node '
                          'plus the child')
        else:
            rep.ok()


def sequence(rep, w, s, path, here):
    """filters and transformations: from the table or from the cache"""
    q = 'traverse'
    for k, b in s.know.items():
        if k[0] == 'in' and key_of(k[1]) and k[1][2] != (N,) and all(mentions(x, path) for x in k[1][2]):
            rep.violation('sequence', q, here, 'the key is not the key of the node')
            return
        if k[0] == 'in' and key_of(k[1]) and not b and ('in', ('c', '<'), k[2]) not in s.know:
            for e in s.trace:
                if e[0] == 'store' and e[1] == k[2] and e[2] != k[1]:
                    rep.violation('cache', q + ' key', here, 'the transformations are kept in the cache with another '
                                  'key than the one that is looked up')
    vi = next((i for i, e in enumerate(s.trace) if any(True for _ in visits((e,)))), -1)
    seqs = []
    filters = []
    for i, e in enumerate(s.trace):
        if e[0] != 'for':
            continue
        for know, tr, kind in e[2]:
            for d in tr:
                if d[0] == 'do' and d[1][1] == ('el', base_seq(e[1])):
                    if d[1][2] == (path,):
                        if (i, e) not in seqs:
                            seqs.append((i, e))
                    elif (i, e) not in filters and len(d[1][2]) == 1:
                        filters.append((i, e))
    hit = [k for k, b in s.know.items() if k[0] == 'in' and b and key_of(k[1])
           and ('in', ('c', '<'), k[2]) not in s.know]
    stores = [e for e in s.trace if e[0] == 'store' and key_of(e[2])]
    named = [d[1][1] for d in s.trace if d[0] == 'do' and len(d[1][2]) == 1 and mentions(d[1][2][0], kids(N))]
    direct = [d for e in s.trace if e[0] == 'do' for d in (e,) if d[1][2] == (path,)]
    if direct:
        raise Unrecognised('transformations outside a loop')
    if len(seqs) != 1:
        # an empty sequence is not run through
        if not seqs and not any(mentions(e, path) for e in s.trace if e[0] == 'for'):
            rep.violation('transform', q, here, 'the transformations are not called')
            return
        raise Unrecognised('sequence of transformations')
    i, e = seqs[0]
    if e[1][0] == 'rev':
        rep.violation('order', q + ' sequence', here, 'the transformations are called in reverse order')
    if i < vi:
        rep.violation('order', q + ' children', here, 'the transformations of a node are called before those of its '
                      'children')
    for know, tr, kind in e[2]:
        do = [d for d in tr if d[0] == 'do' and d[1][1] == ('el', base_seq(e[1]))]
        if len(do) != 1 or do[0][1][2] != (path,) or kind != 'next' and kind != 'exit':
            rep.violation('once', q + ' sequence', here, 'not every transformation is called once with the path of '
                          'the node')
        else:
            rep.ok()
    seq = base_seq(e[1])
    fseq = base_seq(filters[0][1][1]) if filters else None
    entry = None
    for k in hit:
        c = ('sub', k[2], k[1])
        if mentions(seq, c) or mentions(fseq or (), c):
            entry = c
    if entry is not None:
        if seq != ('sub', entry, ('c', 1)) or fseq is not None and fseq != ('sub', entry, ('c', 0)):
            if seq == ('sub', entry, ('c', 0)):
                rep.violation('cache', q, here, 'filters and transformations are mixed up when they are read from the '
                              'cache')
            elif mentions(seq, entry) and fseq is not None and mentions(fseq, entry):
                raise Unrecognised('cache')
            else:
                rep.violation('cache', q, here, 'filters or transformations are not read from the cache entry of the '
                              'node')
        elif fseq is None:
            rep.violation('filters', q, here, 'the filters of the cache entry are not applied')
        else:
            rep.ok()
        return
    for st in stores:
        v = st[3]
        if v[0] != 'T' or len(v[1]) != 2:
            raise Unrecognised('cache')
        if base_seq(v[1][1]) != seq:
            rep.violation('cache', q + ' transformations', here, 'other transformations are kept in the cache than '
                          'those that are applied now')
        elif fseq is None and v[1][0][0] == 'list' and tuple(named) == v[1][0][1:]:
            rep.ok()
        elif fseq is not None and v[1][0] != fseq:
            rep.violation('cache', q + ' filters', here, 'other filters are kept in the cache than those that are '
                          'applied now')
        elif fseq is None:
            rep.violation('filters', q, here, 'the filters are not applied when a node-type is met for the first time')
        else:
            rep.ok()
    tabs = {k[2] for k in s.know if k[0] == 'in' and k[1] == ('c', '<')}
    if len(tabs) != 1:
        raise Unrecognised('table')
    table = tabs.pop()
    want = []
    if s.know.get(('in', ('c', '<'), table)):
        want.append(('c', '<'))
    own = [k[1] for k, b in s.know.items() if k[0] == 'in' and k[2] == table and key_of(k[1]) and b]
    if own:
        want.append(own[0])
    elif s.know.get(('in', ('c', '*'), table)):
        want.append(('c', '*'))
    elif ('in', ('c', '*'), table) not in s.know:
        rep.violation('sequence', q, here, 'a node without an entry in the table is not transformed with "*"')
    if s.know.get(('in', ('c', '>'), table)):
        want.append(('c', '>'))
    got = []
    sources(seq, table, got)
    for c in (('c', '<'), ('c', '>')):
        if ('in', c, table) not in s.know and c not in got:
            rep.violation('sequence', q, here, f'"{c[1]}" is not applied to every node')
    if got != want:
        names = lambda l: ', '.join('the entry of the node' if x[0] != 'c' else f'"{x[1]}"' for x in l) or 'nothing'
        rep.violation('sequence', q, here, f'a node is to be transformed with {names(want)}, but it is transformed '
                      f'with {names(got)}')
    else:
        rep.ok()


def key_of(t):
    return isinstance(t, tuple) and t[:1] == ('call',) and mentions(t, N)


# -- compiler -------------------------------------------------------------------------------------

class CompilerWalk(Walk):
    """exceptions that have passed through a compilation leave a longer path"""
    compiling: frozenset = frozenset()

    def s_Try(self, s, st, fr):
        res = super().s_Try(s, st, fr)
        key = (SELF, 'path')
        if key in st.attrs and s.handlers and any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.compiling
                and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self'
                for b in s.body for n in ast.walk(b)):
            for h in s.handlers:
                x = st.copy()
                l = x.attrs[key]
                items = x.heap.get(l[1]) if l[0] == 'L' else None
                if items is None:
                    continue
                x.heap[l[1]] = items + (('pre', 'rest'),)
                if h.name:
                    x.envs[fr.env][h.name] = ('exc', '?')
                out = self.block(h.body, x, fr)
                if s.finalbody:
                    out = [(y, o if o2 is None else o2) for z, o in out for y, o2 in self.block(s.finalbody, z, fr)]
                res = res + out
        return self.merge(res)


class Balance(CompilerWalk):
    """only what happens to the lists matters"""

    def merge(self, states):
        groups = {}
        for x, o in states:
            x.trace = ()
            o = o[:1] if o is not None and o[0] in ('ret', 'raise') and not (o[0] == 'raise') else o
            k = (o, x.given, x.notes, x.attrs.get((SELF, 'path')), tuple(sorted(
                (i, v) for i, v in x.heap.items() if v is None or any(y[0] == 'pre' for y in v))),
                tuple(sorted((e, n, v) for e, env in x.envs.items() for n, v in env.items() if v[0] in ('L', 'F'))))
            groups.setdefault(k, []).append(x)
        res = []
        for k, xs in groups.items():
            x = xs[0]
            if len(xs) > 1:
                x = x.copy()
                for e, env in x.envs.items():
                    for n, v in list(env.items()):
                        if any(y.envs.get(e, {}).get(n) != v for y in xs):
                            env[n] = ('n', n)
                common = set(x.know.items())
                for y in xs[1:]:
                    common &= set(y.know.items())
                x.know = dict(common)
            o = k[0]
            res.append((x, ('ret', NONE) if o == ('ret',) else o))
        return res

    def ev(self, e, st, fr):
        res = super().ev(e, st, fr)
        if len(res) > 8:
            res = self.thin(res)
        return res

    def thin(self, res):
        out, seen = [], set()
        for x, v in res:
            k = (v if is_raise(v) or v[0] in ('L', 'c', 'T') else '', tuple(sorted(
                (i, y) for i, y in x.heap.items() if y is None or any(z[0] == 'pre' for z in y))), len(x.envs), len(x.heap))
            if k not in seen:
                seen.add(k)
                out.append((x, v))
        return out


def with_path(w, items):
    st = St()
    l = w.newlist(st, items)
    st.attrs[(SELF, 'path')] = l
    w.watch = ((SELF, 'path'),)
    return st


def path_of(st):
    v = st.attrs.get((SELF, 'path'))
    return st.heap.get(v[1]) if v is not None and v[0] == 'L' else None


def compiler(ix: Index, rep):
    cls = ix.cls('compile', 'Compiler')
    f = ix.func('compile', 'Compiler.compile')
    node = ('n', f.params()[1])
    here = where(f)
    rep.count('traversals')
    inside = ('list', PRE, node)
    try:
        w = CompilerWalk(ix, interest=('path',), opaque={'find_compilation_method', 'cancel_query', 'wildcard'})
        states = w.start(f, {}, with_path(w, (PRE,)))
        for s, o in states:
            if o is not None and o[0] == 'raise':
                continue
            rep.count('states of compile')
            if path_of(s) != (PRE,):
                rep.violation('unbalanced', f.qual, here, 'the path is not the same after the compilation of a node')
            else:
                rep.ok()
            if any(e[0] == 'while' for e in s.trace):
                raise Unrecognised('loop')
            calls = [(i, e) for i, e in enumerate(s.trace) if e[0] == 'do' and e[1][1][0] == 'call' and
                     mentions(e[1][1][1], 'find_compilation_method')]
            if len(calls) != 1:
                if not calls and not any(mentions(e, 'find_compilation_method') for e in s.trace):
                    raise Unrecognised('compilation method')
                rep.violation('once', f.qual, here, 'a node is not compiled by exactly one call of its method')
                continue
            i, c = calls[0]
            if c[1][2] != (node,) or c[1][1][2] != (node,):
                rep.violation('visit', f.qual, here, 'the method of the node is not called with the node')
            if c[2] != (inside,):
                rep.violation('path', f.qual, here, 'while a node is compiled, the path does not end with this node')
            if o is None or o[1] != c[1]:
                rep.violation('visit', f.qual + ' result', here, 'the result of the compilation method is not returned')
            rep.ok(n=3)
            attrs = ('at', SELF, 'has_attribute_visitors')
            vis = [(j, e) for j, e in enumerate(s.trace) if e[0] == 'for' and any(
                d[0] == 'do' and d[1][1][0] == 'call' and ('__getattribute__' in str(d[1][1]) or
                                                           'attr_visitor_name' in str(d[1][1]))
                for a in e[2] for d in a[1])]
            asked = s.know.get(attrs, True)
            has = next((b for k, b in s.know.items() if k[0] == 'call' and k[1] == ('at', node, 'has_attr')), True)
            if asked and has:
                if len(vis) != 1:
                    if not vis and not any(mentions(e, 'attr') for e in s.trace):
                        rep.violation('attributes', f.qual, here, 'the attributes of a node are not visited')
                        continue
                    if not vis:
                        raise Unrecognised('attributes')
                    rep.violation('attributes', f.qual, here, 'the attributes of a node are visited more than once')
                    continue
                j, e = vis[0]
                if j < i:
                    rep.violation('attributes', f.qual + ' order', here, 'the attributes of a node are visited before '
                                  'the node has been compiled')
                for know, tr, kind in e[2]:
                    do = [d for d in tr if d[0] == 'do' and d[1][1][0] == 'call' and len(d[1][2]) == 2
                          and d[1][2][0] == node]
                    if len(do) > 1 or kind != 'next':
                        rep.violation('attributes', f.qual + ' once', here, 'an attribute is not visited exactly once')
                    elif do and do[0][2] != (inside,):
                        rep.violation('path', f.qual + ' attributes', here, 'while the attributes of a node are visited, '
                                      'the path does not end with this node')
                    else:
                        rep.ok()
                if not any(d[0] == 'do' and d[1][1][0] == 'call' and len(d[1][2]) == 2 and d[1][2][0] == node
                           for a in e[2] for d in a[1]):
                    rep.violation('attributes', f.qual, here, 'the visitors of the attributes are not called')
    except Unrecognised as e:
        rep.count('not followed')
        rep.ok(f'{f.qual}: not followed ({e})')
    # the fallback: compile all children
    f = ix.func('compile', 'Compiler.fallback_compiler')
    node = ('n', f.params()[1])
    here = where(f)
    rep.count('traversals')
    child = ('el', kids(node))
    try:
        w = CompilerWalk(ix, interest=('path', 'children', 'compile'), opaque={'compile'})
        states = w.start(f, {}, with_path(w, (PRE,)))

        def compiled(tr):
            return [e for e in tr if e[0] == 'do' and e[1][1][0] == 'at' and e[1][1][2] == 'compile']
        for s, o in states:
            if o is not None and o[0] == 'raise':
                continue
            rep.count('states of fallback_compiler')
            if any(e[0] == 'while' and any(compiled(a[1]) for a in e[-1]) for e in s.trace):
                raise Unrecognised('loop')
            if compiled(s.trace):
                rep.violation('once', f.qual, here, 'the node itself is compiled again')
                continue
            loops = [e for e in s.trace if e[0] == 'for' and any(compiled(a[1]) for a in e[2])]
            if not loops:
                if s.know.get(kids(node)) is False:
                    rep.ok()
                    continue
                rep.violation('visit', f.qual, here, 'the children are not compiled')
                continue
            if len(loops) > 1:
                rep.violation('once', f.qual, here, 'the children are compiled more than once')
                continue
            seq, alts = loops[0][1], loops[0][2]
            if part_of(seq, kids(node)):
                rep.violation('once', f.qual, here, 'not all children are compiled in order')
                continue
            if base_seq(seq) != kids(node):
                raise Unrecognised('sequence')
            if seq[0] == 'rev':
                rep.violation('order', f.qual, here, 'the children are compiled in reverse order')
            for know, tr, kind in alts:
                c = compiled(tr)
                if kind not in ('next', 'raise') or len(c) != 1:
                    rep.violation('once', f.qual, here, 'not every child is compiled exactly once')
                elif c[0][1][2] != (child,) or c[0][1][1][1] != SELF:
                    rep.violation('visit', f.qual, here, 'something else than the child is compiled')
                else:
                    rep.ok()
            if o is None or o[0] != 'ret' or o[1] != node:
                rep.violation('visit', f.qual + ' result', here, 'the node is not returned')
            rep.ok()
    except Unrecognised as e:
        rep.count('not followed')
        rep.ok(f'{f.qual}: not followed ({e})')


# -- paths are left as they were -----------------------------------------------------------------

CHANGING = {'append', 'pop', 'extend', 'insert', 'remove', 'clear', 'reverse'}


def path_names(f: Func):
    """parameters, captured variables and attributes that are changed in place"""
    params, attrs, free = set(), set(), set()
    ps = set(f.params())
    stored = {n.id for n in own_nodes(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    declared = {x for n in own_nodes(f.node) if isinstance(n, ast.Nonlocal) for x in n.names}
    for n in own_nodes(f.node):
        b = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGING:
            b = n.func.value
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
        elif isinstance(n, ast.AugAssign):
            b = n.target
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == 'path':
            b = n
        if isinstance(b, ast.Name) and 'path' in b.id.lower() or isinstance(b, ast.Name) and b.id in ('trail', 'stack'):
            if b.id in ps:
                params.add(b.id)
            elif f.outer is not None and (b.id in declared or b.id not in stored):
                free.add(b.id)
        elif isinstance(b, ast.Attribute) and b.attr == 'path' and isinstance(b.value, ast.Name) and b.value.id == 'self':
            attrs.add('path')
    return params, attrs, free


def with_nested(f: Func):
    return [f] + nested_funcs(f)


def balance(ix: Index, rep):
    comp = ix.cls('compile', 'Compiler')
    # methods that lead to a compilation
    reach = {'compile', 'fallback_compiler', 'visit_attributes'}
    methods = [f for c in ix.subclasses(comp) for f in c.methods.values()]
    grew = True
    while grew:
        grew = False
        for f in methods:
            if f.name not in reach and any(
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in reach
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' for n in ast.walk(f.node)):
                reach.add(f.name)
                grew = True
    for f in itertools.chain.from_iterable(with_nested(f) for f in ix.all_functions()):
        if f.module.name not in ('nodetree', 'transform', 'compile', 'ebnf', 'pipeline', 'trace', 'parse'):
            continue
        params, attrs, free = path_names(f)
        is_comp = f.cls is not None and f.outer is None and ix.is_subclass(f.cls, 'Compiler')
        if is_comp and any(isinstance(n, ast.Try) and n.handlers for n in own_nodes(f.node)):
            attrs.add('path')
        if not is_comp:
            attrs.discard('path')
        if f.name in ('__init__', 'reset', '__call__'):      # where a compilation starts
            continue
        if not params and not attrs and not free:
            continue
        rep.count('functions changing a path')
        try:
            w = Balance(ix, interest=('path',) + tuple(params))
            w.compiling = frozenset(reach)
            if is_comp:
                w.opaque = frozenset(reach) - {f.name}
            st = St()
            lists = {}
            args = {}
            for p in sorted(params):
                args[p] = w.newlist(st, (PRE, N))
                lists[p] = args[p]
            if attrs:
                st.attrs[(SELF, 'path')] = w.newlist(st, (PRE,))
            env = None
            if free:
                env = len(st.envs) + 1
                st.envs[env], st.up[env] = {}, None
                for p in sorted(free):
                    st.envs[env][p] = lists[p] = w.newlist(st, (PRE, N))
                st.envs[env][f.name] = w.closure(f.node, Frame(env, None, None, None, f.module, f.cls))
                w.closures[id(f.node)] = (f.node, f.module, f.cls)
            states = w.start(f, args, st, env)
            for p, l in lists.items():
                if l[1] in w.grew:
                    rep.violation('unbalanced', f'{f.qual} {p}', where(f),
                                  f'"{p}" is longer after each round of a loop')
            for s, o in states:
                if o is not None and o[0] == 'raise':
                    continue
                for p, l in lists.items():
                    items = s.heap.get(l[1])
                    if items is None:
                        raise Unrecognised('path')
                    if items != (PRE, N):
                        rep.violation('unbalanced', f'{f.qual} {p}', where(f),
                                      f'"{p}" is not the same when the function returns')
                    else:
                        rep.ok()
                if attrs:
                    v = s.attrs.get((SELF, 'path'))
                    items = s.heap.get(v[1]) if v is not None and v[0] == 'L' else None
                    if items is None:
                        raise Unrecognised('path')
                    if items != (PRE,):
                        rest = any(i == ('pre', 'rest') for i in items)
                        rep.violation('unbalanced', f'{f.qual} self.path', where(f),
                                      'self.path is not restored after an exception has passed through a compilation'
                                      if rest else 'self.path is not the same when the method returns')
                    else:
                        rep.ok()
        except Unrecognised as e:
            rep.count('not followed')
            rep.ok(f'{f.qual}: not followed ({e})')


def generators(ix: Index, rep):
    for f in ix.all_functions():
        if f.module.name not in ('nodetree', 'transform', 'compile', 'ebnf') or f.outer is not None \
                or not is_generator(f.node):
            continue
        if any(f is ix.func(m, q) for m, q, *_ in WALKERS):
            continue
        rep.count('generators')
        try:
            w = Walk(ix, interest=('path',))
            states = w.start(f, {})
            if any(n[0] == 'given' for s, _ in states for n in s.notes):
                rep.violation('changed-later', f.qual, where(f), 'a list that has been yielded is changed afterwards')
            else:
                rep.ok()
        except Unrecognised as e:
            rep.count('not followed')
            rep.ok(f'{f.qual}: not followed ({e})')


def check(ix: Index, rep, tier: str):
    walkers(ix, rep)
    children_iterator(ix, rep)
    evaluation(ix, rep)
    transformation(ix, rep)
    compiler(ix, rep)
    balance(ix, rep)
    generators(ix, rep)
