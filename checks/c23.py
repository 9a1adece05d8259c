"""C23: lists, dictionaries and sets passed by the caller are left alone (side-effect summaries)."""
from __future__ import annotations
import ast
import os

from sa.src import Index, AnalysisError, dotted, unparse
from sa.effects import Effects, immutable
from sa.report import Report
from .c08 import ATTR_TYPES, VAR_TYPES, Pardon

EXPLANATION = ('Side-effect summaries (fixpoint over the whole package) of every public function and method: no path '
               'through it or the functions it calls changes a list, dictionary or set that was passed to it as an '
               'argument, unless the parameter is one of the audited parameters for handing back results or of the '
               'documented in-place functions.')
ASSUMPTIONS = ['functions passed in by the caller are not looked into',
               'paths (lists of nodes) and trees given to transformation functions are meant to be changed']

# parameters through which results are handed back or whose in-place use is documented: (function or *, parameter)
EXPECTED = {
    ('*', 'mapping'): 'filled by the serialisers (documented)',
    ('*', 'out_empty_tags'): 'collects the empty tags (documented)',
    ('*', 'index_out'): 'receives the index (documented)',
    ('*', 'unmatched'): 'collects unmatched brackets (documented)',
    ('*', 'memo'): 'protocol of copy.deepcopy', ('*', 'memodict'): 'protocol of copy.deepcopy',
    ('EBNFCompiler.optimize_definitions_order', 'definitions'): 'reorders the definitions (documented)',
    ('EBNFCompiler.assemble_parser', 'definitions'): 'list built by its only caller for this purpose',
    ('traverse', 'transformation_table'): 'expanded in place once, as a cache (documented)',
    ('transformer', 'transformation_table'): 'see traverse',
    ('traverse_locally', 'transformation_table'): 'see traverse',
    ('create_transtable_junction', 'table'): 'see traverse',
    ('fuse_anonymous_leaves', 'result'): 'fuses the nodes of the list in place and returns it',
}
TREE_PARAMS = {'path', 'node', 'nd', 'tree', 'root', 'trail', 'leaf_path', 'reader', 'writer'}


def not_container(ix: Index, p: ast.arg) -> bool:
    if p.annotation is None:
        return p.arg in TREE_PARAMS
    if immutable(p.annotation):
        return True
    n = unparse(p.annotation).strip('"\'')
    if n.startswith('Optional['):
        n = n[9:-1]
    n = n.split('.')[-1]
    return n in ix.classes or n in ('Path', 'StreamWriterType', 'StreamReaderType', 'TextIO', 'IO', 'BinaryIO') \
        or 'Stream' in n


def public(f) -> bool:
    if f.name.startswith('_') and not f.name.startswith('__'):
        return False
    if f.cls is not None and f.cls.name.startswith('_'):
        return False
    return f.outer is None


def check(ix: Index, rep: Report, tier: str):
    eff = Effects(ix, attr_types=ATTR_TYPES, var_types=VAR_TYPES, pardon=Pardon(),
                  values=('name', 'content', 'pos', '_pos', 'strlen', 'anonymous'))
    with open(os.path.join(os.path.dirname(__file__), 'api.txt'), encoding='utf-8') as fh:
        api = set(fh.read().split())        # public functions; helpers added later are judged through their callers
    for f in ix.all_functions():
        s = eff.sum.get(id(f.node))
        if s is None or not public(f) or f'{f.module.name}.{f.qual}' not in api:
            continue
        a = f.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        ps = ps + [a.vararg, a.kwarg]
        first = 1 if f.cls is not None and not f.is_static else 0
        bad = set()
        for (o, attr), via in s.mut.items():
            if o[0] != 'p' or len(o) != 2 or attr != '[]' or o[1] < first or o[1] >= len(ps):
                continue
            p = ps[o[1]]
            if p is None or (p is not a.vararg and p is not a.kwarg and not_container(ix, p)):
                continue
            bad.add(p.arg)
            if ('*', p.arg) in EXPECTED or (f.qual, p.arg) in EXPECTED:
                rep.count('audited parameters')
                continue
            rep.violation('argument-modified', f'{f.module.name}.{f.qual}|{p.arg}|{via[-1].split(" ", 1)[-1]}', via[-1],
                          f'{f.qual}() changes the object passed as "{p.arg}" ({" -> ".join(via)})')
        n = 0
        for i, p in enumerate(ps):
            if p is not None and i >= first and p.arg not in bad and not immutable(p.annotation):
                n += 1
        if n:
            rep.ok(f'{f.module.name}.{f.qual}: {n} parameters left alone', n)
        rep.count('public functions')
    # arguments kept by reference in an attribute that a method of the class modifies later on
    for c in ix.all_classes():
        init = c.methods.get('__init__')
        if init is None or id(init.node) not in eff.sum or c.name.startswith('_'):
            continue
        a = init.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]
        changed = {}
        fam = ix.mro(c) + [k for k in ix.subclasses(c, strict=True)]
        for k in fam:
            for m in k.methods.values():
                if m.is_static or m.is_classmethod or id(m.node) not in eff.sum:
                    continue
                for (o, attr), via in eff.sum[id(m.node)].mut.items():
                    if attr == '[]' and len(o) == 3 and o[:2] == ('p', 0):
                        changed.setdefault(o[2], (m, via))
        for attr, vals in eff.sum[id(init.node)].stores.items():
            for o in vals:
                if o[0] != 'p' or len(o) != 2 or o[1] < 1 or o[1] >= len(ps):
                    continue
                p = ps[o[1]]
                if p is None or p is a.vararg or p is a.kwarg or not_container(ix, p) or \
                        ('*', p.arg) in EXPECTED or (init.qual, p.arg) in EXPECTED:
                    continue
                if attr in changed:
                    m, via = changed[attr]
                    rep.violation('kept-argument-modified', f'{init.qual}|{p.arg}|{attr}', via[-1],
                                  f'{init.qual}() keeps the object passed as "{p.arg}" in "{attr}", and {m.qual}() '
                                  f'changes it there ({" -> ".join(via)})')
                else:
                    rep.ok(f'{init.qual}: "{p.arg}" kept in "{attr}", never modified there')
                    rep.count('arguments kept by reference')
    rep.count('call sites resolved', eff.calls_resolved)
    rep.floor('public functions', 500)
