"""C30: every name that is read exists, and every local variable has a value on every path that reads it."""
from __future__ import annotations
import ast
import importlib
import os
import re
import sys
import warnings
from concurrent.futures import ProcessPoolExecutor
from typing import Dict, List, Optional, Set, Tuple

from sa.names import Scopes, DefiniteAssignment, BUILTINS, FUNC, NORETURN
from sa.norm import normalise
from sa.src import AnalysisError

EXPLANATION = (
    'Scope analysis of all modules, scripts and code templates: every name that is read is looked up in the scopes '
    'Python would look it up in (functions, classes, module, star imports, builtins); imported and exported names '
    'exist in the modules they are taken from; path-sensitive definite-assignment analysis of every local variable '
    'of every function (states in which the variable is unbound carry the truth values of the conditions that led '
    'there; loops may run zero times; an exception may leave a try-block before any of its statements), and of the '
    'global variables at the end of the module.')
ASSUMPTIONS = ['conditions on attributes do not change their value between two tests of a function without an '
               'assignment to the attribute in between', 'modules of the standard library define the names they '
               'define in the Python version that runs the check']

warnings.simplefilter('ignore', SyntaxWarning)
PKG = 'DHParser'
SKIP = ('externallibs/', 'ts2python/typing_extensions.py', 'ts2python/singledispatch_shim.py',
        'ts2python/typeddict_shim.py', 'templates/')
# (file, function, variable): reason - a value is there for reasons that lie in the data
DATA = {
    ('parse.py', 'Interleave._parse', 'location__'): 'the parsers that have not been consumed are called first: '
                                                     'without any, the loop has been left before',
    ('parse.py', 'Interleave._parse', 'node'): 'as above',
    ('testing.py', 'extract_symbols', 'curr_section'): 'if the first item does not start a section, a section has been '
                                                       'started before the loop',
    ('transform.py', 'move_fringes', 'i'): 'a node is among the children of its parent, thus there are any',
    ('lsp.py', '<module>', 'TypedDict'): 'without any of the modules for typed dictionaries the user is told so',
    ('lsp.py', '<module>', 'Literal'): 'as above',
}
TEMPLATES = ('DSLParser.pyi', 'DSLServer.pyi', 'DSLApp.pyi', 'tst_DSL_grammar.pyi')
GENERATED = {'preprocessing', 'parsing', 'ASTTransformation', 'compiling', 'RE_INCLUDE', 'RE_COMMENT'}


class Mod:
    def __init__(self, rel: str, text: str, tree=None):
        self.rel, self.text = rel, text
        self.tree = tree or normalise(ast.parse(text, filename=rel))
        self.scopes = Scopes(self.tree)
        self.name = rel[:-3].replace('/', '.') if rel.endswith('.py') else rel
        if self.name.endswith('__init__'):
            self.name = self.name[:-9] if '.' in self.name else ''
        self.is_pkg = rel.endswith('__init__.py')
        self.lazy = any(isinstance(n, ast.ImportFrom) and n.module == '__future__'
                        and any(a.name == 'annotations' for a in n.names) for n in self.tree.body)


def mentions(tree, qual: str, name: str) -> bool:
    """True, if the name occurs in the function"""
    cls, _, fn = qual.rpartition('.')
    within = [c for c in ast.walk(tree) if isinstance(c, ast.ClassDef) and c.name == cls.split('.')[-1]] or [tree]
    return any(isinstance(f, FUNC) and f.name == fn and any(isinstance(x, ast.Name) and x.id == name
                                                           for x in ast.walk(f)) for c in within for f in ast.walk(c))


def load(repo: str) -> Dict[str, Mod]:
    base = os.path.join(repo, PKG)
    mods = {}
    for dp, dn, fns in os.walk(base):
        dn[:] = sorted(d for d in dn if d != '__pycache__')
        for fn in sorted(fns):
            rel = os.path.relpath(os.path.join(dp, fn), base)
            if fn.endswith('.py') and not rel.startswith(SKIP):
                with open(os.path.join(dp, fn), encoding='utf-8') as f:
                    m = Mod(rel, f.read())
                mods[m.name] = m
    return mods


class Names:
    def __init__(self, repo, mods):
        self.repo, self.mods = repo, mods
        self._exp: Dict[str, Optional[List[str]]] = {}
        self._ns: Dict[str, Optional[Set[str]]] = {}

    def package_module(self, name: str) -> Optional[str]:
        """key of the module with that dotted name relative to the package, None if there is none"""
        if name in self.mods:
            return name
        return None

    def exists_as_file(self, name: str) -> bool:
        p = os.path.join(self.repo, PKG, *name.split('.')) if name else os.path.join(self.repo, PKG)
        return os.path.exists(p + '.py') or os.path.isdir(p)

    def rel_name(self, m: Mod, node: ast.ImportFrom) -> Optional[str]:
        """module of an import-from relative to the package ('' for the package), None: not of the package"""
        if node.level:
            parts = m.name.split('.') if m.name else []
            if not m.is_pkg:
                parts = parts[:-1]
            if node.level > 1:
                parts = parts[:len(parts) - (node.level - 1)]
            return '.'.join(parts + (node.module.split('.') if node.module else []))
        if node.module == PKG:
            return ''
        if node.module and node.module.startswith(PKG + '.'):
            return node.module[len(PKG) + 1:]
        return None

    # -- values of __all__ -------------------------------------------------------

    def listed(self, m: Mod, e: ast.expr) -> Optional[List[str]]:
        if isinstance(e, (ast.Tuple, ast.List)):
            res: List[str] = []
            for x in e.elts:
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    res.append(x.value)
                elif isinstance(x, ast.Starred):
                    r = self.listed(m, x.value)
                    if r is None:
                        return None
                    res += r
                else:
                    return None
            return res
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return list(e.value)     # a string is a sequence of one-letter names
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.listed(m, e.left), self.listed(m, e.right)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.Attribute) and e.attr == '__all__' and isinstance(e.value, ast.Name):
            key = (m.name + '.' if m.name and m.is_pkg else '') + e.value.id
            if key in self.mods:
                return self.exported(key)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('tuple', 'list', 'sorted') and e.args:
            return self.listed(m, e.args[0])
        return None

    def all_of(self, m: Mod) -> Optional[ast.expr]:
        res = None
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in st.targets):
                res = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == '__all__':
                res = st.value
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == '__all__' and res:
                res = ast.BinOp(res, ast.Add(), st.value)
        return res

    def exported(self, key: str) -> List[str]:
        """names a star import of the module yields"""
        if key not in self._exp:
            self._exp[key] = []
            m = self.mods[key]
            e = self.all_of(m)
            r = self.listed(m, e) if e is not None else None
            if r is None:
                if e is not None:
                    raise AnalysisError(f'{PKG}/{m.rel}: __all__ cannot be evaluated')
                r = sorted(n for n in self.namespace(key) if not n.startswith('_'))
            self._exp[key] = r
        return self._exp[key]

    def namespace(self, key: str) -> Set[str]:
        """global names of a module"""
        if key not in self._ns:
            m = self.mods[key]
            ns = set(m.scopes.module.bound)
            self._ns[key] = ns
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    r = self.rel_name(m, n)
                    if r is not None and r in self.mods:
                        ns |= set(self.exported(r))
                    elif r is None and n.module:
                        ns |= set(std_names(n.module) or ())
            if m.is_pkg:
                pre = m.name + '.' if m.name else ''
                for k in self.mods:
                    if k.startswith(pre) and k != m.name:
                        ns.add(k[len(pre):].split('.')[0])
        return self._ns[key]


_STD: Dict[str, Optional[Set[str]]] = {}


def std_names(module: str) -> Optional[Set[str]]:
    if module not in _STD:
        _STD[module] = None
        if module.split('.')[0] in sys.stdlib_module_names and module.split('.')[0] not in ('antigravity', 'this'):
            try:
                mod = importlib.import_module(module)
                _STD[module] = set(dir(mod))
            except ImportError:
                pass
    return _STD[module]


def importable(module: str) -> Optional[bool]:
    top = module.split('.')[0]
    if top not in sys.stdlib_module_names:
        return None
    try:
        importlib.import_module(module)
        return True
    except ModuleNotFoundError as e:
        # (a submodule of the standard library that is not there may be one of later Python versions)
        return None if '.' in module or top in ('tkinter',) or (e.name or '').startswith('_') else False
    except ImportError:
        return None


def guarded_imports(tree) -> Set[int]:
    """import statements in try-blocks that catch import errors, or under version conditions"""
    res: Set[int] = set()

    def rec(n, g):
        if isinstance(n, ast.Try):
            names = set()
            for h in n.handlers:
                for x in ast.walk(h.type) if h.type is not None else []:
                    if isinstance(x, ast.Name):
                        names.add(x.id)
                if h.type is None:
                    names.add('Exception')
            g2 = g or bool(names & {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException', 'AttributeError'})
            for c in n.body:
                rec(c, g2)
            for c in n.handlers + n.orelse + n.finalbody:
                rec(c, g)
            return
        if isinstance(n, ast.If) and 'version' in ast.unparse(n.test):
            g = True
        if isinstance(n, (ast.Import, ast.ImportFrom)) and g:
            res.add(id(n))
        for c in ast.iter_child_nodes(n):
            rec(c, g)
    rec(tree, False)
    return res


# -- unbound locals, in worker processes -----------------------------------------------------

def analyse(job):
    rel, text, part, parts = job
    tree = normalise(ast.parse(text))
    sc = Scopes(tree)
    res, checked, paths, funcs = [], 0, 0, 0
    k = 0
    for s in sc.module.walk():
        if s.kind == 'func' and isinstance(s.node, FUNC):
            k += 1
            if k % parts != part:
                continue
            da = DefiniteAssignment(s.node, sc, noreturn=NORETURN)
            for v, nd in da.run():
                res.append((s.qual, v, nd.lineno))
            checked += da.checked
            paths += da.paths
            funcs += 1
    if part == 0:
        da = DefiniteAssignment(tree, sc)
        for v, nd in da.run():
            res.append(('<module>', v, nd.lineno))
        checked += da.checked
        # global variables that functions read but some way through the module leaves without a value
        used: Dict[str, Tuple[str, int]] = {}
        always = {id(st) for st in tree.body}
        for s in sc.module.walk():
            chain = [s]
            while chain[-1].parent is not None:
                chain.append(chain[-1].parent)
            top = chain[-2] if len(chain) > 1 else s
            if not any(x.kind == 'func' for x in chain) \
                    or top.kind in ('func', 'class') and isinstance(top.node, FUNC + (ast.ClassDef,)) \
                    and id(top.node) not in always:
                continue    # what is defined in a branch is used in that branch
            for n in s.loads:
                if s.resolves(n.id) is sc.module:
                    used.setdefault(n.id, (s.qual, n.lineno))
        da = DefiniteAssignment(tree, sc, variables=set(used) - BUILTINS)
        for v in da.unbound_at_end():
            res.append(('<module>', v, used[v][1]))
            checked += 1
    return rel, res, checked, paths, funcs


def check(ix, rep, tier):
    repo = ix.repo
    mods = load(repo)
    if len(mods) < 25:
        raise AnalysisError('modules of the package have vanished')
    names = Names(repo, mods)
    templates = template_mods(repo, mods, rep)

    for key, m in sorted(mods.items()) + templates:
        ns = names.namespace(key) if key in mods else set(m.scopes.module.bound) | m.extra
        check_imports(m, names, rep)
        check_names(m, ns, rep)
        if key in mods:
            e = names.all_of(m)
            if e is not None:
                for n in names.exported(key):
                    rep.count('exported names')
                    if n in ns:
                        rep.ok()
                    else:
                        rep.violation('export', f'{m.rel}.__all__.{n}', f'{PKG}/{m.rel}',
                                      f'__all__ lists {n}, which the module does not define: "from ... import *" fails')
    jobs = []
    for m in list(mods.values()) + [t[1] for t in templates]:
        parts = 1 + len(m.text) // 60000
        for p in range(parts):
            jobs.append((m.rel, m.text, p, parts))
    jobs.sort(key=lambda j: -len(j[1]))
    with ProcessPoolExecutor(8) as ex:
        parts = list(ex.map(analyse, jobs, chunksize=1))
    merged: Dict[str, List] = {}
    for rel, res, checked, paths, funcs in parts:
        x = merged.setdefault(rel, [rel, [], 0, 0, 0])
        x[1] += res
        x[2], x[3], x[4] = x[2] + checked, x[3] + paths, x[4] + funcs
    results = list(merged.values())
    for rel, res, checked, paths, funcs in results:
        rep.count('functions analysed', funcs)
        rep.count('local variables analysed', checked)
        rep.count('abstract states explored', paths)
        rep.ok(n=checked)
        flagged = {(q, v) for q, v, line in res}
        used = {(q, v) for q, v, line in res if (rel, q, v) in DATA}
        for qual, v, line in res:
            spare = [w for f, q, w in DATA if f == rel and q == qual and (q, w) not in used]
            if (rel, qual, v) not in DATA and spare \
                    and not any(mentions(m.tree, qual, spare[0]) for m in mods.values() if m.rel == rel):
                used.add((qual, spare[0]))    # the variable has been given another name
                rep.count('reads justified by the data')
                continue
            if (rel, qual, v) in DATA or any(f == rel and w == v and (q, w) not in flagged for f, q, w in DATA):
                # (the statements may have been moved to a function of their own)
                rep.count('reads justified by the data')
                continue
            rep.violation('unbound', f'{rel}:{qual}.{v}', f'{PKG}/{rel}:{line} {qual}',
                          f'there is a path through {qual} on which {v} is read before it has been assigned')
    rep.floor('functions analysed', 1200)
    rep.floor('local variables analysed', 2200)
    rep.floor('names looked up', 30000)
    rep.floor('imported names', 600)


def check_names(m: Mod, ns: Set[str], rep):
    top = m.scopes.module
    for s in top.walk():
        loads = list(s.loads)
        lazy = s.annots
        for n in loads + lazy:
            rep.count('names looked up')
            r = s.resolves(n.id)
            if r is not None or n.id in ns or n.id in BUILTINS:
                rep.ok()
                continue
            what = 'annotation' if any(n is x for x in lazy) else 'name'
            rep.violation('undefined', f'{m.rel}:{s.qual}.{n.id}', f'{PKG}/{m.rel}:{n.lineno} {s.qual}',
                          f'{what} {n.id} is not defined in any scope that is visible here')


def check_imports(m: Mod, names: Names, rep):
    guarded = guarded_imports(m.tree)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            r = names.rel_name(m, n)
            for a in n.names:
                rep.count('imported names')
                if r is not None:
                    if r in names.mods:
                        if a.name == '*' or a.name in names.namespace(r) \
                                or names.exists_as_file((r + '.' if r else '') + a.name):
                            rep.ok()
                        else:
                            rep.violation('import', f'{m.rel}:{n.module}.{a.name}', f'{PKG}/{m.rel}:{n.lineno}',
                                          f'{a.name} is imported from {n.module}, which does not define it')
                    elif names.exists_as_file(r):
                        rep.ok()
                    elif id(n) not in guarded:
                        rep.violation('import', f'{m.rel}:{n.module}', f'{PKG}/{m.rel}:{n.lineno}',
                                      f'there is no module {n.module}')
                else:
                    if id(n) in guarded or not n.module:
                        rep.ok()
                        continue
                    have = std_names(n.module)
                    if have is None:
                        if importable(n.module) is False:
                            rep.violation('import', f'{m.rel}:{n.module}', f'{PKG}/{m.rel}:{n.lineno}',
                                          f'there is no module {n.module}')
                        continue
                    if a.name == '*' or a.name in have or importable(f'{n.module}.{a.name}') is not False:
                        rep.ok()
                    else:
                        rep.violation('import', f'{m.rel}:{n.module}.{a.name}', f'{PKG}/{m.rel}:{n.lineno}',
                                      f'{a.name} is imported from {n.module}, which does not define it')
        elif isinstance(n, ast.Import):
            for a in n.names:
                rep.count('imported names')
                if a.name == PKG or a.name.startswith(PKG + '.'):
                    if names.exists_as_file(a.name[len(PKG) + 1:]):
                        rep.ok()
                        continue
                elif id(n) in guarded or importable(a.name) is not False:
                    rep.ok()
                    continue
                if id(n) not in guarded:
                    rep.violation('import', f'{m.rel}:{a.name}', f'{PKG}/{m.rel}:{n.lineno}',
                                  f'there is no module {a.name}')


# -- templates ---------------------------------------------------------------------------------

def string_constant(m: Mod, name: str) -> Optional[str]:
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
            e = st.value
            if isinstance(e, ast.Constant) and isinstance(e.value, str):
                return e.value
    return None


def fill(text: str) -> str:
    text = re.sub(r'(?<!\{)\{(\w+)\}(?!\})', lambda g: g.group(1) if g.group(1).lower() == 'name' else '"X"', text)
    return text.replace('{{', '{').replace('}}', '}')


def template_mods(repo, mods, rep):
    res = []
    ebnf, dsl = mods.get('ebnf'), mods.get('dsl')
    head = ''
    for m, n in ((ebnf, 'DHPARSER_IMPORTS'), (dsl, 'LOCAL_CONFIG'), (ebnf, 'PREPROCESSOR_FACTORY'),
                 (ebnf, 'GRAMMAR_FACTORY'), (ebnf, 'TRANSFORMER_FACTORY'), (ebnf, 'COMPILER_FACTORY'),
                 (ebnf, 'CUSTOM_PARSER_EXAMPLE')):
        c = string_constant(m, n) if m else None
        if c is None:
            raise AnalysisError(f'code template {n} has vanished')
        head += c if n == 'DHPARSER_IMPORTS' else fill(c)
    for t in TEMPLATES:
        p = os.path.join(repo, PKG, 'templates', t)
        if not os.path.exists(p):
            continue
        with open(p, encoding='utf-8') as f:
            text = f.read()
        src = fill(text) if t != 'DSLServer.pyi' and '{{' in text or '{NAME}' in text or '{name}' in text else text
        extra = set()
        if t == 'DSLParser.pyi':
            n = head.count('\n')
            src = head + '\n' + src
            extra = {'NAMEGrammar', 'NAMECompiler', 'NAME_AST_transformation_table', 'DHParser'}
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            rep.violation('template', f'templates/{t}', f'{PKG}/templates/{t}', f'not valid Python: {e}')
            continue
        m = Mod('templates/' + t, src, tree)
        m.extra = extra
        rep.count('code templates')
        res.append(('templates/' + t, m))
    rep.floor('code templates', 3)
    return res
