"""C24: deep copies of parsers, grammar objects and trees are complete and independent."""
from __future__ import annotations
import ast

from sa.src import Index, Class, AnalysisError, own_nodes
from sa.attrflow import Interp, State, Obj, V, Frame, Dead, SHARED, SHALLOW, DEEP


def fresh(ix, cls, may=True):
    """fields of a new object of cls: name -> V with tokens 'param'"""
    ip = Interp(ix, may)
    ip.selfid = 'new'
    ip.family_root = cls
    f = ix.lookup(cls, '__init__')
    if f is None:
        return {}
    o = Obj('new', cls)
    st = State()
    st.heap['new'] = {}
    env = {}
    for p in f.all_params():
        env[p] = V({p: SHARED})
    env[f.params()[0]] = o
    try:
        ip.call(f, env, st, 0)
    except Dead:
        raise AnalysisError(f'{cls.name}.__init__ always raises')
    return st.heap['new']


def copied(ix, cls):
    f = ix.lookup(cls, '__deepcopy__')
    ip = Interp(ix, False)
    ip.family_root = cls
    st = State()
    o = Obj('self', cls)
    ps = f.params()
    env = {ps[0]: o}
    if len(ps) > 1:
        env[ps[1]] = V({'$memo': SHARED})
    try:
        r = ip.call(f, env, st, 0)
    except Dead:
        return f, None, None, ip
    return f, r, (st.heap.get(r.id) if isinstance(r, Obj) else None), ip


def stores(ix):
    """attribute -> [(function, store node)] for every store obj.attr = ... in the package"""
    res = {}
    for f in ix.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                res.setdefault(n.attr, []).append((f, n))
    return res


def fields(ix, cls, everywhere=False):
    """attribute -> annotation text of all attributes the class sets up in its constructors"""
    res = {}
    for f in [f for c in ix.mro(cls) for f in list(c.methods.values()) + list(c.setters.values())
              if f.name == '__init__' or everywhere and f.name != '__deepcopy__']:
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                            if x.attr not in ix_setters(ix, cls):
                                res.setdefault(x.attr, []).append(n)
    return res


def ix_setters(ix, cls):
    return {s for c in ix.mro(cls) for s in c.setters}


EXPLANATION = (
    'Attribute-flow interpretation of every __deepcopy__ routine for every concrete class that uses it (constructors, '
    'setters and helper functions inlined): on every path each attribute that depends on a constructor argument, each '
    'attribute initialised from the configuration and each attribute that is set after construction reaches the '
    'copy from the corresponding attribute of the original; container attributes are copied, attributes that '
    'hold parsers or nodes are deep-copied, and nested copies of parsers pass the memo on.')
ASSUMPTIONS = ['the default protocol of copy.deepcopy is complete for classes without a __deepcopy__ of their own',
               'listed caches, back references and attributes renewed by reset() need not be carried']

# caches, back references and attributes that are renewed when the copy is used or connected
TRANSIENT = {'ptype', '_sub_parsers', 'sub_parsers', '_parse_proxy', '_symbol', '_descendants_cache',
             '_anon_desc_cache', '_desc_trails_cache', '_grammar', 'grammar', 'visited', 'cycle_reached',
             'start_parser__', '_dirty_flag__', 'associated_symbol_cache__', 'cancel_query__', 'cancel_query_last__',
             'cancel_interval__', 'static_analysis_caches__', 'unconnected_parsers__', 'resume_parsers__',
             'static_analysis_pending__', 'static_analysis_errors__', 'resume_rules__', 'skip_rules__',
             'comment_rx__', 'all_parsers__', 'mode__', '_error_set', '_leaf_data'}
# attributes that are set after construction and matter for the behaviour, without a constructor argument
ALWAYS = {'Parser': {'pname', 'disposable', 'drop_content', 'node_name'},
          'CombinedParser': {'_return_value', '_return_values'},
          'SmartRE': {'groups', 'is_lookahead_', 'pattern'},
          'Capture': {'_can_capture_zero_length'},
          'Forward': {'parser'}, 'LateBindingUnary': {'parser'},
          'Node': {'_pos', '_attributes', 'name', '_result', '_children'},
          'RootNode': {'errors', 'error_nodes', 'error_positions', 'error_flag', 'source', 'lbreaks', 'inline_tags',
                       'string_tags', 'empty_tags', 'docname', 'stage', 'serialization_type', 'data',
                       'source_mapping', '_error_set'},
          'Grammar': {'root_parser__', 'history_tracking__', 'resume_notices__', 'max_parser_dropouts__',
                      'reentry_search_window__', 'left_recursion__'}}
EXEMPT = {('Forward', '_return_value'), ('Forward', '_return_values'),     # never called: Forward redirects
          ('SmartRE', 'regexp'),                                           # compiled lazily from pattern
          ('FrozenNode', '_children')}                                     # always empty
EQUIV = {'_error_set': {'errors'}, '_result': {'_children'}, '_children': {'_result'},
         'regexp': {'pattern'}, 'ff_parser__': {'root_parser__'}, 'lbreaks': {'source'}}
CONTAINERS = {'list', 'dict', 'set', 'defaultdict', 'deque', 'OrderedDict', 'Counter'}


def is_container(nodes) -> bool:
    for n in nodes:
        v = n.value
        if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in CONTAINERS:
            return True
        a = getattr(n, 'annotation', None)
        if a is not None:
            t = ast.unparse(a)
            if t.split('[')[0] in ('List', 'Dict', 'Set', 'MutableSet', 'list', 'dict', 'set', 'MutableMapping'):
                return True
    return False


DEEP_FIELDS = {'parser', 'parsers', '_children', 'root_parser__', 'children'}


def check(ix: Index, rep, tier):
    st = stores(ix)
    roots = [c for c in ix.all_classes() if '__deepcopy__' in c.methods]
    seen_calls = {}
    for cls in ix.all_classes():
        f = ix.lookup(cls, '__deepcopy__')
        if f is None:
            continue
        init = fresh(ix, cls)
        f, r, dup, ip = copied(ix, cls)
        if r is None:
            continue                                   # never returns: cannot be copied at all
        rep.count('classes')
        where = f.where
        if dup is None or not isinstance(r, Obj):
            rep.violation('no-new-object', f'{cls.name}.__deepcopy__', where,
                          f'the deep copy of a {cls.name} is not a new object made by {f.qual}')
            continue
        if r.cls is not cls:
            rep.violation('other-class', f'{cls.name}.__deepcopy__', where,
                          f'the deep copy of a {cls.name} is a {r.cls.name}')
            continue
        fam = {k.name for k in ix.mro(cls)}
        flds = fields(ix, cls)
        params = {}                                    # field -> constructor arguments it depends on
        for a, v in init.items():
            if isinstance(v, V) and v.toks:
                params[a] = set(v.toks)
        carriers = {}                                  # argument -> fields it is visible in
        for a, ps in params.items():
            for p in ps:
                carriers.setdefault(p, set()).add(a)
        all_dict = '**' in dup
        must = set()
        for k in fam:
            must |= ALWAYS.get(k, set())
        for a, ns in flds.items():
            if any(isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name)
                   and n.value.func.id == 'get_config_value' for n in ns):
                must.add(a)
            elif a not in TRANSIENT and not a.startswith('_') and not reset_field(ix, cls, a):
                outside = [g for g, n in st.get(a, [])
                           if not (g.cls is not None and g.name in ('__init__', 'reset', '_reset__', '__deepcopy__'))
                           and not class_private(ix, g, n, fam)]
                if outside:
                    must.add(a)
        must |= {a for a in params if a not in TRANSIENT}
        must = {a for a in must if a in flds or a in params or a in dup or a in ('_attributes', '_children', '_result')
                or any(a in ALWAYS.get(k, ()) for k in fam)}
        for a in sorted(must):
            if any((k, a) in EXEMPT for k in fam) or all_dict:
                rep.ok()
                continue
            v = dup.get(a)
            if isinstance(v, Obj):
                rep.ok()
                continue
            paths = v.paths() if isinstance(v, V) else [{}]
            good = True
            for t in paths:
                own = a in t or bool(EQUIV.get(a, set()) & set(t))
                if not own:
                    # every constructor argument behind the attribute has to reach the copy
                    good &= a in params and all(carriers[p] & set(t) for p in params[a])
            if good:
                rep.ok(f'{cls.name}.{a}')
            else:
                rep.violation('not-carried', f'{cls.name}.{a}', where,
                              f'the deep copy of a {cls.name} does not take over "{a}" of the original '
                              f'on every path')
        # sharing
        flds = fields(ix, cls, everywhere=True)
        if all_dict:
            for a in sorted(set(flds) & (DEEP_FIELDS | {x for x in flds if is_container(flds[x])})):
                v = dup.get(a)
                if not (isinstance(v, V) and v.toks and min(v.toks.values()) > SHARED):
                    rep.violation('shared', f'{cls.name}.{a}', where,
                                  f'the deep copy of a {cls.name} shares "{a}" with the original')
        for a, v in sorted(dup.items()):
            if not isinstance(v, V) or a == '**':
                continue
            for t in v.paths():
                for g, mode in t.items():
                    if g.startswith('$'):
                        continue
                    if (g in DEEP_FIELDS and a in DEEP_FIELDS | {'_sub_parsers', '_result'} and mode < DEEP) \
                            or (g in flds and is_container(flds[g]) and mode == SHARED):
                        rep.violation('shared', f'{cls.name}.{a}', where,
                                      f'"{a}" of the deep copy of a {cls.name} is the same object as "{g}" of '
                                      f'the original')
                    else:
                        rep.ok()
        if 'Parser' in fam:
            for call, g, v, memo in ip.deepcopies:
                seen_calls[id(call)] = (call, g, v, memo)
    for call, g, v, memo in seen_calls.values():
        if isinstance(v, V) and set(v.toks) & DEEP_FIELDS:
            if isinstance(memo, V) and '$memo' in memo.toks:
                rep.ok(f'{g.qual}: memo')
            else:
                rep.violation('memo-lost', f'{g.qual}', f'{g.module.rel}:{call.lineno} {g.qual}',
                              'the copy of contained parsers does not pass the memo on: a parser that is referred '
                              'to from several places is duplicated')
    rep.count('routines', len(roots))
    rep.floor('classes', 30)
    rep.floor('routines', 12)


def reset_field(ix, cls, a) -> bool:
    for c in ix.mro(cls):
        for m in ('reset', '_reset__'):
            f = c.methods.get(m)
            if f is not None:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store):
                        return True
    return False


def class_private(ix, g, n, fam) -> bool:
    """a store self.a in a method of an unrelated class"""
    return isinstance(n.value, ast.Name) and n.value.id == 'self' and g.cls is not None \
        and g.cls.name not in fam
