"""C03: parsing terminates: repetitions, left recursion and the retry driver make progress on every round."""
from .posdom import *
from .c02 import targets

EXPLANATION = (
    "Abstract interpretation (order facts between reading positions; sub-parser calls replaced by their "
    "contract) of every parser class' matching routine and guard and of the grammar's driver: on every path "
    "of an unbounded loop that calls a parser and reaches the loop head again, a position carried round the "
    "loop must have strictly increased (or reached the end of the document). Typestate of the left-recursion "
    "counter: every re-entrant call made with left-recursion handling on happens with the counter of that "
    "position just initialised or strictly decremented from a value tested to be non-zero.")
ASSUMPTIONS = [
    "documents are finite; nested parser calls on a strictly smaller rest or a strictly smaller recursion "
    "counter terminate (induction); grammars that recurse to the left with left-recursion handling switched "
    "off end in Python's recursion limit, which the engine catches",
    "user-supplied parse and match functions terminate",
]

RC = 'recursion_counter'


class Dom3(PosDomain):
    """adds the left-recursion counter typestate; facts ('rc',): absent | ('old', nz) | set | dec | other"""

    def __init__(self, ix):
        super().__init__(ix)
        self.guarded = []

    def compare(self, it, st, op, l, r, node):
        if op in ('In', 'NotIn') and r[0] == 'attr' and r[2] == RC and is_pos(l):
            cur = st.get(('rc', l))
            yes = op == 'In'
            if cur == 'absent':
                return [(st, not yes)]
            if cur is not None:
                return [(st, yes)]
            return [(st.fact(('rc', l), 'old'), yes), (st.fact(('rc', l), 'absent'), not yes)]
        return super().compare(it, st, op, l, r, node)

    def truth(self, it, st, val):
        if val[0] == 'attr' and val[2] == 'left_recursion__':
            return st.get(('lr',))
        return super().truth(it, st, val)

    def assume(self, it, st, val, truth):
        if val[0] == 'attr' and val[2] == 'left_recursion__':
            return [st.fact(('lr',), truth)]
        if val[0] == 'num' and truth and st.get(('lo', val)) == 0:
            return [st.fact(('lo', val), 1)]
        return None

    def subscript(self, it, st, base, idx, node):
        if base[0] == 'attr' and base[2] == RC and is_pos(idx):
            t = ('num', 'rcval', idx)
            if ('lo', t) not in st.facts:
                st = st.fact(('lo', t), 0)
            return [(st, t)]
        if idx[0] == 'slice' and is_pos(idx[1][0]) and idx[1][1] == NONE:
            return [(st, ('rest', idx[1][0]))]
        return super().subscript(it, st, base, idx, node)

    def binop(self, it, st, op, l, r, node):
        if op == 'Sub' and l[0] == 'num' and l[1] == 'rcval' and is_const(r) and isinstance(r[1], int) \
                and r[1] > 0:
            lo = st.get(('lo', l), 0)
            t = ('num', 'rcdec', l[2])
            return [(st.fact(('lo', t), lo - r[1]), t)]
        return super().binop(it, st, op, l, r, node)

    def assign_sub(self, it, st, base, idx, val, node):
        if base[0] == 'attr' and base[2] == RC and is_pos(idx):
            cur = st.get(('rc', idx))
            if cur in (None, 'old', 'dec', 'other'):
                if val[0] == 'num' and val[1] == 'rcdec' and st.get(('lo', val), -1) >= 0:
                    new = 'dec'
                else:
                    new = 'other'
            else:
                new = 'set'
            return [st.fact(('rc', idx), new)]
        return super().assign_sub(it, st, base, idx, val, node)

    def call(self, it, st, node, fv, args, kw):
        if fv == ('builtin', 'len') and len(args) == 1 and args[0][0] == 'rest':
            q = rel(st, DOCLEN, args[0][1])
            st, t = self.num(it, st, node, 1 if q == 1 else 0)
            return [(st, t)]
        if fv[0] == 'attr' and fv[2] == 'get' and fv[1][0] == 'attr' and fv[1][2] == RC and args \
                and is_pos(args[0]):
            k = ('rc', args[0])
            d = args[1] if len(args) > 1 else NONE
            if k in st.facts and st.facts[k] != 'absent':
                return self.subscript(it, st, fv[1], args[0], node)
            s2, t = self.subscript(it, st.fact(k, 'old'), fv[1], args[0], node)[0]
            if d != NONE:
                return [(st.fact(k, 'absent'), d), (s2, t)] if k not in st.facts else [(st, d)]
            return [(st.fact(k, 'absent'), NONE), (s2, t)] if k not in st.facts else [(st, NONE)]
        if fv[0] == 'attr' and fv[1] and fv[1][0] == 'rest' and fv[2] in ('find', 'index'):
            st, t = self.num(it, st, node, -1 if fv[2] == 'find' else 0)
            return [(st, t)]
        return super().call(it, st, node, fv, args, kw)

    def note_parser_call(self, it, st, node, loc):
        st = super().note_parser_call(it, st, node, loc)
        self.guarded.append((it.frame.func, st.get(('lr',)), st.get(('rc', loc)), node))
        return st

    def keep_fact(self, key):
        return super().keep_fact(key)


class DriverDom(Dom3):
    """the driver loop ends when the position has reached the document length"""
    max_depth = 2
    record_conditions = False

    def __init__(self, ix):
        super().__init__(ix)
        self.bounded = {}

    def assign_name(self, it, st, name, val, node):
        if val == const(0):
            val = START
        if is_pos(val) or is_const(val) or val[0] in ('num', 'rest', 'closure', 'neg', 'bound', 'inst') \
                or val[0] == 'attr' and val[2] in ('document__', 'text__'):
            return [st.set(name, val)]
        return [st.unset(name).set(name, TOP)]

    def assign_attr(self, it, st, base, attr, val, node):
        return [st]

    def assign_sub(self, it, st, base, idx, val, node):
        return [st]

    def call_result(self, it, st, node, fv, args, kw):
        return [(st, TOP)]

    def inline(self, it, func, node):
        return self.pos_args > 0 and super().inline(it, func, node)

    def on_loop_head(self, it, st, node):
        if self.unbounded(node):
            lid = self.loop_id(it, node)
            names = tuple(sorted({n.args[0].id for n in ast.walk(node.test) if isinstance(n, ast.Call)
                                  and dotted(n.func) == 'len' and n.args and isinstance(n.args[0], ast.Name)}))
            self.bounded[lid] = names
            st = st.fact(('grew', lid), False)
        return super().on_loop_head(it, st, node)

    def call(self, it, st, node, fv, args, kw):
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('append', 'insert') \
                and isinstance(node.func.value, ast.Name):
            for lid, names in self.bounded.items():
                if node.func.value.id in names and ('grew', lid) in st.facts:
                    st = st.fact(('grew', lid), True)
            return [(st, NONE)]
        return super().call(it, st, node, fv, args, kw)

    def on_back_edge(self, it, st, node):
        if self.unbounded(node):
            lid = self.loop_id(it, node)
            heads = dict(st.facts.get(('head', lid), ()))
            now = self.pos_vars(st)
            if st.get(('grew', lid)) and st.facts.get(('loopcall', lid)):
                # a list whose length the loop condition bounds has become longer
                self.progress.append((it.frame.func, node, True, st))
                st = st.fact(('loopcall', lid), False).fact(('grew', lid), False)
            done = [n for n, v in now.items() if n in heads and heads[n] != DOCLEN
                    and (v == DOCLEN or equal(st, v, DOCLEN) or rel(st, v, DOCLEN) is not None)]
            if done and st.facts.get(('loopcall', lid)):
                st = st.fact(('loopcall', lid), False)
                self.progress.append((it.frame.func, node, True, st))
        return super().on_back_edge(it, st, node)


def check(ix, rep, tier):
    seen_loops = set()
    lr_classes = 0
    for c, func, flow in targets(ix):
        dom = Dom3(ix)
        it = run_parser(ix, c, func, dom)
        label = f'{c.name}.{func.name}'
        rep.count('routines')
        judge_loops(dom, rep, label, seen_loops)
        uses_rc = any(isinstance(n, ast.Attribute) and n.attr == RC for k in ix.mro(c)
                      for f in k.methods.values() for n in ast.walk(f.node))
        if func.name == '__call__' and uses_rc:
            lr_classes += 1
            judged = False
            for fn, lr, rc, node in dom.guarded:
                if lr is False:
                    continue
                judged = True
                rep.count('recursive_call_sites_evaluated')
                if rc in ('set', 'dec'):
                    rep.ok(f'{label}: recursive call with counter {rc}')
                else:
                    rep.violation('recursion-unguarded', f'{label}:{rc}', f'{fn.module.rel}:{node.lineno} {label}',
                                  'the possibly left-recursive parser is called although the recursion counter '
                                  'of this position was neither just initialised nor decremented from a value '
                                  f'shown to be positive (state: {rc})')
            if not judged:
                rep.violation('recursion-unguarded', f'{label}:none', func.where,
                              'no left-recursion guard is active at any call of the referenced parser')
    rep.count('left_recursion_guards', lr_classes)
    g = ix.cls('parse', 'Grammar')
    f = ix.lookup(g, '__call__')
    if f is None:
        raise AnalysisError('Grammar.__call__ has vanished')
    dom = DriverDom(ix)
    it = Interp(ix, dom)
    env = {p: TOP for p in f.params()}
    env[f.params()[0]] = inst(g)
    it.run(f, env, {}, inst(g))
    n = len(dom.progress)
    judge_loops(dom, rep, 'Grammar.__call__', seen_loops)
    if not n:
        rep.violation('driver-loop', 'Grammar.__call__', f.where, 'no retry loop was recognised')
    rep.count('routines')
    rep.count('parser_loops', len(seen_loops))
    rep.floor('routines', 30)
    rep.floor('left_recursion_guards', 2)
    rep.floor('parser_loops', 5)


def judge_loops(dom, rep, label, seen):
    for fn, loop, ok, st in dom.progress:
        key = f'{fn.qual}@{loop.lineno}'
        seen.add(key)
        if ok:
            rep.ok(f'{label}: round trip of the loop in {fn.qual} moves forward')
        else:
            rep.violation('no-progress', f'{label}:{fn.qual}', f'{fn.module.rel}:{loop.lineno} {fn.qual}',
                          'a path round this loop calls a parser and returns to the loop head without the '
                          'reading position having strictly increased: an empty match repeats for ever')
