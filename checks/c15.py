"""C15: results do not depend on the hash seed, on object identities, on the clock or on the order of directories."""
from __future__ import annotations
import ast
import os

from sa.src import Index, unparse
from sa.order import Order
from checks.c08 import ATTR_TYPES

EXPLANATION = (
    'Taint analysis of iteration order and identity: every set, frozenset, dictionary filled from one, directory '
    'listing, id(), hash(), clock and random number in the package is followed through variables, attributes, calls, '
    'callbacks and return values. A violation is reported where it becomes observable: a text joined or formatted from '
    'unordered elements, a list that another function or the caller receives in arbitrary order, an element picked or '
    'returned because it came first, a variable that keeps the value of whichever element came last, effects carried '
    'out in arbitrary order, ties left by a sort key, identities that are compared or written out, clock readings.')
ASSUMPTIONS = ['sort keys that are tuples of several components are keys of the sorted elements',
               'a loop that looks for an element equal to a given value finds at most one',
               'effects more than four calls away from the loop concern objects created in the loop']

API = set(open(os.path.join(os.path.dirname(__file__), 'api.txt')).read().split())


def pardon(kind, func, expr):
    m = func.module.name
    if kind == 'clock':
        # time stamps of HTTP headers and logs, names of files that must be unique
        return m in ('server', 'log', 'testing')
    if kind == 'text' and 'id(' in expr:
        # names that merely have to be unique: connections in the log, anonymous test units, streams, thread-locals
        return m in ('server', 'testing') or func.cls is not None and func.cls.name == 'ThreadLocalSingletonFactory'
    if kind == 'arbitrary-element':
        # set_tracer: the grammar is asserted to be the same for all parsers
        # as_paths, as_graph: the junctions of a pipeline form a tree, which has a single root
        return m == 'trace' or m == 'pipeline' and ' - ' in expr
    return False


NAMES = {'text': 'text in arbitrary order', 'ties': 'ties in a sort', 'first-match': 'first match',
         'last-one-wins': 'last one wins', 'order-of-effects': 'order of effects',
         'arbitrary-element': 'arbitrary element', 'identity-order': 'order of identities',
         'arbitrary-order-compared': 'comparison', 'clock': 'clock'}


def check(ix: Index, rep, tier):
    o = Order(ix, attr_types=ATTR_TYPES, pardon=pardon, mixed=('CONFIG_PRESET',))
    found = o.run()
    n = o.counts['unordered_loops']
    rep.count('functions', o.counts['functions'])
    rep.count('loops_over_unordered', n)
    rep.count('attributes_that_are_unordered', sum(1 for v in o.attr.values() if 'S' in v.f))
    done = set()
    for (kind, qual, expr), (func, node, what) in found.items():
        done.add((func.module.name, qual))
        rep.violation(kind, f'{func.module.name}.{qual} {expr}',
                      f'{func.module.rel}:{getattr(node, "lineno", func.node.lineno)} {qual}', what)
    for f in ix.all_functions():
        r = o.memo.get((id(f.node), 0, None))
        name = f'{f.module.name}.{f.qual}'
        if r is not None and 'U' in r.f and name in API and (f.module.name, f.qual) not in done:
            rep.violation('returned-in-arbitrary-order', name, f'{f.module.rel}:{f.node.lineno} {f.qual}',
                          'a sequence is returned whose order is arbitrary')
        elif (f.module.name, f.qual) not in done:
            rep.ok(name)
    rep.floor('loops_over_unordered', 15)
    rep.floor('attributes_that_are_unordered', 15)
