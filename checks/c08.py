"""C08: looking at a tree does not change it (side-effect summaries of all query and serialisation functions)."""
from __future__ import annotations
import ast
from typing import List, Set

from sa.src import Index, Func, AnalysisError, dotted, unparse
from sa.effects import Effects
from sa.report import Report

EXPLANATION = ('Side-effect summaries (access paths from the parameters, fixpoint over the whole package) of every '
               'query, comparison and serialisation function of the node classes, the path functions, the content '
               'mapping and the stand-alone readers: no object reachable from a parameter is modified. Converting '
               'the text of a leaf to a string in place and creating an empty attribute dictionary where there is '
               'none are no modifications.')
ASSUMPTIONS = ['functions passed in by the caller (match functions, evaluation actions) are not looked into',
               'parameters through which results are handed back (mapping, out_empty_tags, index_out) are excepted']

NODE_RO = '''__str__ __repr__ repr equals content strlen __len__ __bool__ __contains__ __getitem__ get index indices
anonymous result children pos has_attr attr get_attr has_equal_attr walk_tree select select_if select_children pick
pick_if pick_child locate find_parent walk_tree_paths select_path_if select_path pick_path_if pick_path locate_path
reconstruct_path milestone_segment evaluate evaluate_path as_sxpr as_sxml collect_empty_tags as_xml as_html as_tree
to_json_obj as_json as_unist_obj as_xast as_ndst as_unist serialize as_etree __deepcopy__ errors_sorted error_safe
did_match node_errors errors'''.split()
OUT = {'mapping', 'out_empty_tags', 'index_out'}     # parameters through which results are handed back
MODULE_RO = {
    'nodetree': '''content_of strlen_of tree_sanity_check create_match_function create_path_match_function flatten_sxpr
flatten_xml xml_tag_name restore_tag_name validate_token_sequence normalize_token_sequence has_token eq_tokens
has_token_on_attr node_names path_names path_str match_path_str pred_siblings succ_siblings get_prev_sibling
get_next_sibling prev_path next_path zoom_into_path get_prev_leaf get_next_leaf foregoing_str ensuing_str
select_path_if select_path pick_path_if pick_path select_from_path_if select_from_path pick_from_path_if
pick_from_path path_head_if path_head path_tail_if path_tail find_common_ancestor pp_path path_sanity_check
leaf_paths add_token remove_token affirm deny LEAF_NODE BRANCH_NODE LEAF_PATH BRANCH_PATH VOID_NODE
VOID_PATH deserialize parse_sxpr parse_sxml parse_xml parse_json'''.split(),
    'error': '''is_fatal is_error has_errors only_errors'''.split(),
    'transform': '''is_single is_named is_anonymous is_insignificant_whitespace contains_only_whitespace is_empty
is_token is_one_of not_one_of name_matches matches_re has_content has_ancestor has_parent has_descendant has_child
has_children has_sibling has_attr attr_equals node_name any_of all_of none_of'''.split(),
}
MAPPING_RO = '''__str__ path_list pos_list path pos path_str node_names path_names get_path_index get_path_and_offset
get_location get_node_index get_node_position iterate_paths select_if pick_if select pick'''.split()
ROOT_SELECTORS = ('error_nodes', 'error_positions', 'errors')
ATTR_TYPES = {'_children[]': 'Node', 'children[]': 'Node', '_result[]': 'Node', 'result[]': 'Node', 'path[]': 'Node',
              'select_if()[]': 'Node', 'select()[]': 'Node', 'select_children()[]': 'Node', 'walk_tree()[]': 'Node',
              '_grammar': 'Grammar', 'grammar': 'Grammar', 'tree__': 'RootNode', 'trail[]': 'Node', 'nodes[]': 'Node',
              'start_path[]': 'Node', 'stump[]': 'Node', 'leaf_path[]': 'Node'}
VAR_TYPES = {'node': 'Node', 'nd': 'Node', 'child': 'Node', 'tree': 'RootNode', 'leaf': 'Node', 'root': 'RootNode',
             'parent': 'Node', 'ancestor': 'Node', 'sibling': 'Node', 'other': 'Node', 'segment': 'Node'}


def parents_of(fn_node):
    res = {}
    for n in ast.walk(fn_node):
        for c in ast.iter_child_nodes(n):
            res[id(c)] = n
    return res


class Pardon:
    """modifications that no reader can observe"""

    def __init__(self):
        self.par = {}
        self.seen = {'leaf text normalised': set(), 'attribute dictionary created on demand': set()}

    def parents(self, w):
        k = id(w.func.node)
        if k not in self.par:
            self.par[k] = parents_of(w.func.node)
        return self.par[k]

    def __call__(self, w, o, attr, node):
        if w.func.cls is not None and w.func.cls.name == 'LazyRE':
            return True         # compiles its pattern on first use
        if isinstance(node, (ast.Assign, ast.Delete)) and all(
                isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in OUT
                for t in node.targets):
            return True
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'setdefault' \
                and 'cache' in unparse(node.func.value):
            return True
        if isinstance(node, (ast.Assign, ast.AnnAssign)):
            targets = node.targets if isinstance(node, ast.Assign) else [node.target]
            if attr == '_result':
                places = {unparse(t) for t in targets if isinstance(t, ast.Attribute)}
                if places and self.str_of(w, node.value, places, 0):
                    self.seen['leaf text normalised'].add(w.func.qual)
                    return True
            if attr == '_attributes' and self.empty_dict(w, node.value):
                places = {unparse(t.value) for t in targets if isinstance(t, ast.Attribute)}
                if places and self.guarded(w, node, places):
                    self.seen['attribute dictionary created on demand'].add(w.func.qual)
                    return True
        return False

    def values_of(self, w, name):
        res = []
        for n in ast.walk(w.func.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                res.append(n.value)
            elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                p = self.parents(w).get(id(n))
                if not isinstance(p, ast.Assign):
                    res.append(None)
        return res

    def place(self, w, e, places, depth):
        """e denotes the current text of the node whose _result is assigned"""
        if isinstance(e, ast.Attribute) and e.attr in ('_result', 'result', 'content'):
            b = unparse(e.value)
            return b + '._result' in places
        if isinstance(e, ast.Name) and depth < 3:
            vs = self.values_of(w, e.id)
            return bool(vs) and all(v is not None and (self.place(w, v, places, depth + 1) or
                                                       self.str_of(w, v, places, depth + 1)) for v in vs)
        return False

    def str_of(self, w, e, places, depth):
        if isinstance(e, ast.Call) and dotted(e.func) == 'str' and len(e.args) == 1 and not e.keywords:
            return self.place(w, e.args[0], places, depth)
        if isinstance(e, ast.IfExp):
            return (self.str_of(w, e.body, places, depth) or self.place(w, e.body, places, depth)) and \
                (self.str_of(w, e.orelse, places, depth) or self.place(w, e.orelse, places, depth))
        if isinstance(e, ast.Name) and depth < 3:
            return self.place(w, e, places, depth)
        return False

    def empty_dict(self, w, e):
        if isinstance(e, ast.Dict):
            return not e.keys
        if isinstance(e, ast.Call):
            return (dotted(e.func) or '').split('.')[-1] in ('dict', 'OrderedDict') and not e.args and not e.keywords
        return False

    def guarded(self, w, node, places):
        par = self.parents(w)
        n = node
        while id(n) in par:
            c, n = n, par[id(n)]
            if isinstance(n, ast.ExceptHandler) and 'AttributeError' in unparse(n.type or ast.Name(id='x')):
                return True
            if isinstance(n, ast.If):
                txt = unparse(n.test)
                if any(p in txt for p in places) and ('_attributes' in txt or 'has_attr' in txt or 'hasattr' in txt):
                    return True
        return False


def check(ix: Index, rep: Report, tier: str):
    pardon = Pardon()
    eff = Effects(ix, attr_types=ATTR_TYPES, var_types=VAR_TYPES, pardon=pardon, values=('name', 'content', 'pos', '_pos', 'strlen', 'anonymous'))
    todo: List[Func] = []
    seen: Set[int] = set()

    def add(f):
        if f is not None and id(f.node) not in seen and not f.is_setter:
            seen.add(id(f.node))
            todo.append(f)

    for cname in ('Node', 'RootNode', 'FrozenNode'):
        c = ix.cls('nodetree', cname)
        for n in NODE_RO:
            add(ix.lookup(c, n))
    for mod, names in MODULE_RO.items():
        for n in names:
            add(ix.modules[mod].functions.get(n) if mod in ix.modules else None)
    for cname in ('ContentMapping', 'LocalContentMapping'):
        c = ix.find_class(ix.modules['nodetree'], cname)
        if c is not None:
            for n in MAPPING_RO:
                add(ix.lookup(c, n))
    if len(todo) < 120:
        raise AnalysisError(f'only {len(todo)} reading functions found')
    for f in todo:
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        ps += ([a.vararg.arg] if a.vararg else ['*']) + ([a.kwarg.arg] if a.kwarg else ['**'])
        bad = 0
        for (o, attr), via in sorted(eff.sum[id(f.node)].mut.items(), key=str):
            if o[0] != 'p':
                continue
            p = ps[o[1]] if o[1] < len(ps) else '?'
            if p in OUT:
                continue
            bad += 1
            site = via[-1]
            rep.violation('reader-modifies', f'{f.qual}|{p}|{attr}|{site.split(" ", 1)[-1]}', site,
                          f'{f.qual}() changes "{attr}" of an object reachable from its parameter "{p}" '
                          f'({" -> ".join(via)})')
        if not bad:
            rep.ok(f'{f.module.name}.{f.qual}: nothing reachable from its parameters is modified')
        rep.count('reading functions')
    rep.count('call sites resolved', eff.calls_resolved)
    for k, v in pardon.seen.items():
        rep.count(k, len(v))
    rep.floor('leaf text normalised', 1)
