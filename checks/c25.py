"""C25: temporarily changed settings are put back however the operation ends."""
from __future__ import annotations
import ast

from sa.src import Index, Func, FUNC, dotted, unparse, own_nodes, nested_funcs, AnalysisError
from sa.flow import Flow, Client

EXPLANATION = (
    'Path-sensitive typestate analysis of every function that changes a setting of its surroundings (configuration '
    'values, opened presets, suspended logging, working directory, import path, tracking flags of a grammar object): '
    'on every normal and every exceptional exit the setting has been restored from the value saved before the '
    'change. Functions whose documented purpose is to change the setting are listed.')
ASSUMPTIONS = ['builtin container methods, reads of configuration values with a constant key and the restoring '
               'calls themselves do not raise']

# functions whose purpose is the change itself: resource kinds they may leave changed
API = {
    ('configuration', 'access_presets'): {'presets'},
    ('configuration', 'set_preset_value'): {'cfg'},
    ('configuration', 'set_config_value'): {'cfg'}, ('configuration', 'add_config_values'): {'cfg'},
    ('configuration', 'reset_config_dict'): {'cfg'}, ('configuration', 'ingest_config_data'): {'cfg'},
    ('log', 'start_logging'): {'cfg'}, ('log', 'suspend_logging'): {'cfg', 'log'},
    ('log', 'resume_logging'): {'cfg', 'log'},
    ('log', 'log_dir'): {'cfg'},
    ('parse', 'Grammar.__init__'): {'attr'}, ('parse', 'Grammar.__deepcopy__'): {'attr'},
    ('trace', 'set_tracer'): {'attr'}, ('trace', 'resume_notices_on'): {'attr'},
    ('trace', 'resume_notices_off'): {'attr'},
    ('ebnf', 'get_ebnf_grammar'): {'attr'},
}
FLAGS = {'history_tracking__', 'resume_notices__'}
SAFE_NAMES = {'len', 'isinstance', 'bool', 'dict', 'list', 'set', 'tuple', 'str', 'frozenset', 'hasattr', 'repr',
              'id', 'callable', 'enumerate', 'zip', 'range', 'reversed', 'type', 'cast', 'OrderedDict', 'sorted',
              'get_access_lock', 'get_config_value', 'get_preset_value', 'is_accessing_presets', 'is_logging',
              'print', 'access_thread_locals', '_config_dict', 'super', 'getattr'}
SAFE_METHODS = {'append', 'items', 'keys', 'values', 'get', 'add', 'extend', 'setdefault', 'copy', 'join', 'lower',
                'upper', 'strip', 'startswith', 'endswith', 'clear', 'discard', 'getcwd', 'debug', 'info', 'update',
                'fnmatchcase', 'splitext', 'abspath', 'isdir', 'isfile', 'exists', 'basename', 'dirname'}
OPENERS = {'access_presets', 'set_config_value', 'set_preset_value', 'suspend_logging', 'chdir', 'log_dir'}
MODULES = None


def last(e):
    d = dotted(e)
    return d.split('.')[-1] if d else (e.attr if isinstance(e, ast.Attribute) else None)


def key_of(call: ast.Call):
    a = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == 'key'), None)
    if isinstance(a, ast.Constant):
        return str(a.value)
    return '*'


def touches(node) -> bool:
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            l = last(n.func)
            if l in OPENERS | {'finalize_presets', 'resume_logging'}:
                return True
            if l in ('append', 'insert', 'pop', 'remove') and isinstance(n.func, ast.Attribute) \
                    and dotted(n.func.value) == 'sys.path':
                return True
        if isinstance(n, ast.Attribute) and n.attr in FLAGS and isinstance(n.ctx, ast.Store):
            return True
    return False


class State:
    pass


# atom: (open resources, saved variables {(name, resource)}, branch facts {(test, truth)})
class Client25(Client):
    def __init__(self, ix, rep):
        self.ix, self.rep = ix, rep
        self.sites = set()
        self.helpers = {}
        self.where = {}
        self.guard_cache = {}
        # predefined variables without a restricted range of values
        m = ix.module('configuration')
        known, limited = set(), set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) \
                    and isinstance(n.targets[0].slice, ast.Constant):
                d = dotted(n.targets[0].value)
                if d == 'CONFIG_PRESET':
                    known.add(n.targets[0].slice.value)
                elif d == 'ALLOWED_PRESET_VALUES':
                    limited.add(n.targets[0].slice.value)
        self.unrestricted = known - limited

    # -- resources ------------------------------------------------------------------

    def saved_value(self, e, saved):
        """resource whose current value the expression reads"""
        if isinstance(e, ast.Call):
            l = last(e.func)
            if l == 'get_config_value':
                return ('cfg', key_of(e))
            if l == 'getcwd' or dotted(e.func) == 'Path.cwd':
                return ('cwd', '')
            if l == 'suspend_logging':
                return ('cfg', 'log_dir')
            if l in ('list', 'copy', 'tuple') and e.args and dotted(e.args[0]) == 'sys.path':
                return ('path', '')
        if isinstance(e, ast.Attribute) and e.attr in FLAGS:
            return ('attr', e.attr)
        if isinstance(e, ast.Subscript) and dotted(e.value) == 'sys.path':
            return ('path', '')
        if isinstance(e, ast.Name):
            for n, r in saved:
                if n == e.id:
                    return r
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
            return self.saved_value(e.value, saved)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'pop'):
            return self.saved_value(e.func.value, saved)
        return None

    def open_(self, atom, r, node, func):
        self.sites.add(id(node))
        self.where.setdefault((func.qual, r), f'{func.module.rel}:{node.lineno}')
        return (atom[0] | {r}, atom[1], atom[2])

    def close(self, atom, r):
        return (frozenset(x for x in atom[0] if x != r), atom[1], atom[2])

    # -- events -------------------------------------------------------------------------

    def event(self, kind, node, atom, flow, func):
        op, saved, facts = atom
        if kind == 'call':
            l = last(node.func)
            if l == 'access_presets':
                return [self.open_(atom, ('presets', ''), node, func)]
            if l == 'finalize_presets':
                return [self.close(atom, ('presets', ''))]
            if l == 'suspend_logging':
                return [self.open_(atom, ('cfg', 'log_dir'), node, func)]
            if l == 'resume_logging':
                v = node.args[0] if node.args else None
                if v is not None and self.saved_value(v, saved) == ('cfg', 'log_dir'):
                    return [self.close(atom, ('cfg', 'log_dir'))]
                return [self.open_(atom, ('cfg', 'log_dir'), node, func)]
            if l == 'log_dir' and (node.args or node.keywords):
                return [self.open_(atom, ('cfg', 'log_dir'), node, func)]
            if l in ('set_config_value', 'set_preset_value'):
                k = key_of(node)
                v = node.args[1] if len(node.args) > 1 else next((x.value for x in node.keywords
                                                                  if x.arg == 'value'), None)
                r = ('cfg', k)
                if v is not None and self.saved_value(v, saved) == r:
                    return [self.close(atom, r)]
                return [self.open_(atom, r, node, func)]
            if l == 'chdir':
                v = node.args[0] if node.args else None
                if v is not None and self.saved_value(v, saved) == ('cwd', ''):
                    return [self.close(atom, ('cwd', ''))]
                return [self.open_(atom, ('cwd', ''), node, func)]
            if isinstance(node.func, ast.Attribute) and dotted(node.func.value) == 'sys.path':
                if l in ('append', 'insert', 'extend'):
                    return [self.open_(atom, ('path', ''), node, func)]
                if l in ('pop', 'remove'):
                    return [self.close(atom, ('path', ''))]
            return [atom]
        if kind == 'load' and isinstance(node, ast.Name):
            # loop that restores every saved value
            rs = [r for n, r in saved if n == node.id]
            if rs:
                for lp in ast.walk(func.node):
                    if isinstance(lp, ast.For) and any(x is node for x in ast.walk(lp.iter)):
                        names = {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)}
                        for st in lp.body:
                            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                                    last(st.value.func) == 'set_config_value' and \
                                    {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)} & names:
                                return [(frozenset(r for r in op if r not in rs), saved, facts)]
            return [atom]
        if kind == 'store':
            if isinstance(node, ast.Name):
                v = getattr(node._stmt, 'value', None)
                new = frozenset((n, r) for n, r in saved if n != node.id)
                fx = frozenset((t, b) for t, b in facts if node.id not in t[1])
                st = node._stmt
                if isinstance(st, ast.For) and isinstance(st.iter, (ast.Name, ast.Call)):
                    ids = {x.id for x in ast.walk(st.iter) if isinstance(x, ast.Name)}
                    src = [r for n, r in saved if n in ids] or \
                        [('cfg', '*') for n in ids if n in self.containers(func)]
                    if src:
                        new |= {(node.id, src[0])}
                elif v is not None:
                    if isinstance(getattr(st, 'targets', [None])[0], ast.Tuple) and isinstance(v, ast.Tuple):
                        for t, x in zip(st.targets[0].elts, v.elts):
                            if t is node:
                                r = self.saved_value(x, saved)
                                if r is not None:
                                    new |= {(node.id, r)}
                    else:
                        r = self.saved_value(v, saved)
                        if r is None and isinstance(v, (ast.DictComp, ast.Dict)):
                            for x in ([v.value] if isinstance(v, ast.DictComp) else v.values):
                                r = self.saved_value(x, saved) if x is not None else None
                                if r is not None:
                                    break
                        if r is not None and r not in op or isinstance(v, ast.Call) and \
                                last(v.func) == 'suspend_logging':
                            new |= {(node.id, r)}
                return [(op, new, fx)]
            if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name):
                v = getattr(node._stmt, 'value', None)
                r = self.saved_value(v, saved) if v is not None else None
                if r is not None and (r not in op or r[1] == '*'):
                    return [(op, saved | {(node.value.id, r)}, facts)]
                return [atom]
            if isinstance(node, ast.Attribute) and node.attr in FLAGS:
                r = ('attr', node.attr)
                v = getattr(node._stmt, 'value', None)
                if v is not None and self.saved_value(v, saved) == r:
                    return [self.close(atom, r)]
                # only functions that remember the former value change it temporarily
                if any(x == r for _, x in saved):
                    return [self.open_(atom, r, node, func)]
                if self.remembers(func, node.attr):
                    return [self.open_(atom, r, node, func)]
                return [atom]
            if isinstance(node, ast.Subscript) and dotted(node.value) == 'sys.path' or \
                    isinstance(node, ast.Attribute) and dotted(node) == 'sys.path':
                v = getattr(node._stmt, 'value', None)
                if v is not None and self.saved_value(v, saved) == ('path', ''):
                    return [self.close(atom, ('path', ''))]
                return [self.open_(atom, ('path', ''), node, func)]
        return [atom]

    def containers(self, func):
        """dictionaries that are filled with saved configuration values only"""
        good, bad = set(), set()
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        (good if isinstance(n.value, ast.Call) and last(n.value.func) == 'get_config_value'
                         else bad).add(t.value.id)
        return good - bad

    def remembers(self, func, attr):
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == attr \
                    and any(isinstance(t, ast.Name) for t in n.targets):
                return True
        return False

    def branch(self, test, atom, truth, flow, func):
        op, saved, facts = atom
        if isinstance(test, (ast.Name, ast.Compare, ast.Attribute)) and \
                not any(isinstance(n, ast.Call) for n in ast.walk(test)):
            t = (ast.unparse(test), frozenset(n.id for n in ast.walk(test) if isinstance(n, ast.Name)))
            for k, b in facts:
                if k == t:
                    return [atom] if b == truth else []
            if t[0] in self.guards(func):
                return [(op, saved, facts | {(t, truth)})]
        return [atom]

    def guards(self, func):
        """tests that decide about a change or a restoration"""
        k = id(func.node)
        if k not in self.guard_cache:
            res = set()
            for n in ast.walk(func.node):
                if isinstance(n, ast.If) and touches(n):
                    t = n.test
                    while isinstance(t, ast.UnaryOp):
                        t = t.operand
                    res |= {ast.unparse(x) for x in (t.values if isinstance(t, ast.BoolOp) else [t])}
            self.guard_cache[k] = res
        return self.guard_cache[k]

    def may_raise(self, call, atom, flow, func):
        if isinstance(call, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        l = last(call.func)
        if isinstance(call.func, ast.Name):
            if l in SAFE_NAMES:
                return False
        elif l in SAFE_METHODS:
            return False
        if l in ('finalize_presets', 'resume_logging') or l in ('pop', 'remove') \
                and isinstance(call.func, ast.Attribute) and dotted(call.func.value) == 'sys.path':
            return False
        if l in ('set_config_value', 'set_preset_value') and key_of(call) in self.unrestricted:
            return False
        if l in ('set_config_value', 'chdir'):
            # restoring calls, and changes to a constant: the change either happens or not
            v = call.args[-1] if call.args else None
            if v is not None and self.saved_value(v, atom[1]) is not None:
                return False
            if l == 'set_config_value' and len(call.args) == 2 and all(isinstance(a, ast.Constant)
                                                                       for a in call.args):
                return False
            return True
        return True

    def target(self, call, atom, flow, func):
        f = call.func
        g = None
        if isinstance(f, ast.Name):
            for n in ast.walk(func.node):
                if isinstance(n, FUNC) and n.name == f.id and n is not func.node:
                    g = Func(n, func.module, func.cls, func)
                    g = self.helpers.setdefault(id(n), g)
            if g is None:
                g = self.ix.resolve_func(func.module, f.id)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and func.cls:
            g = self.ix.lookup(func.cls, f.attr)
        if g is None or isinstance(g.node, ast.AsyncFunctionDef):
            return None
        if (g.module.name, g.qual) in API or g.name in ('finalize_presets', 'get_config_value', 'is_logging') \
                or g.name.startswith('get_config') or g.name in OPENERS:
            return None
        if any(isinstance(d, (ast.Name, ast.Attribute)) and last(d) == 'contextmanager'
               for d in g.node.decorator_list):
            return None
        return g if touches(g.node) else None

    def bind(self, callee, call, atom, flow, func):
        new = set()
        ps = callee.params()
        if callee.is_method:
            ps = ps[1:]
        for p, a in zip(ps, call.args):
            r = self.saved_value(a, atom[1])
            if r is not None:
                new.add((p, r))
        if callee.outer is not None:
            new |= {x for x in atom[1] if x[0] not in ps}
        return atom[0], frozenset(new), frozenset()

    def unbind(self, callee, call, atom, before, flow, func):
        return atom[0], before[1], before[2]


def check(ix: Index, rep, tier):
    funcs = []
    for f in ix.all_functions():
        if touches(f.node):
            funcs.append(f)
            funcs.extend(g for g in nested_funcs(f) if touches(g.node))
    public = {f.qual for f in funcs if f.outer is None and not f.name.startswith('_')}
    results = []
    for f in funcs:
        cl = Client25(ix, rep)
        allowed = API.get((f.module.name, f.qual), set())
        o = Flow(cl).run(f, [(frozenset(), frozenset(), frozenset())])
        n = 0
        for kind, atoms in (('returns', o.ret), ('is left by an exception', o.exc)):
            for a in atoms:
                n += 1
                for r in a[0]:
                    if r[0] in allowed or r == ('cfg', 'log_dir') and 'log' in allowed:
                        continue
                    w = cl.where.get((f.qual, r))
                    if w is None and any(q in public and r2 == r for q, r2 in cl.where):
                        continue        # reported for the function called
                    results.append((f, r, kind, w or f'{f.module.rel}:{f.node.lineno}', len(cl.sites)))
        rep.count('functions_changing_settings')
        rep.count('change_sites', len(cl.sites))
        rep.count('exit_states', n)
        rep.ok(f'{f.qual}: {n} exit states', max(1, len(cl.sites)))
    names = {'presets': 'the presets stay open', 'cfg': 'the configuration value {} stays changed',
             'cwd': 'the working directory stays changed', 'path': 'the import path stays changed',
             'attr': 'the flag {} of the grammar object stays changed'}
    for f, r, kind, where, _ in results:
        # a private helper that changes a setting for its caller is judged at the caller
        if f.name.startswith('_') and not f.name.startswith('__') or f.outer is not None:
            if called_by_checked(f, funcs):
                continue
        rep.violation('not-restored', f'{f.qual} {r[0]} {r[1]}'.strip(), f'{where} {f.qual}',
                      f'when {f.qual} {kind}, ' + names[r[0]].format(r[1]))
    rep.floor('functions_changing_settings', 15)
    rep.floor('change_sites', 10)


def called_by_checked(f, funcs):
    for g in funcs:
        if g.node is f.node:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and last(n.func) == f.name and not any(n is x for x in ast.walk(f.node)):
                return True
    return False
