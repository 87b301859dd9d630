"""Loads /repo's esp_idf_size with the hooks that let symbolic values flow through it.

The source is read from /repo at every run, parsed to an AST, rewritten where CPython itself would force a
symbolic value to a concrete one (dict/set displays, f-strings, `in`, chained comparisons, ...), and executed by
the ordinary interpreter.  Nothing of the program's logic is restated here.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import core, shims
from .core import ENGINE, Sym, SymBool, SymBytes, SymDict, SymInt, SymReal, SymSet, SymStr, Unsupported

PKG = 'esp_idf_size'
STR_METHODS = {n for n in dir(str) if not n.startswith('_')}


def _pure(n):
    """No calls, so evaluating it early has no effect besides a possible exception."""
    for x in ast.walk(n):
        if isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.ListComp,
                          ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
    return True


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.in_class = 0

    # ---- functions
    def _func(self, node):
        self.stack.append(node.name)
        saved, self.in_class = self.in_class, 0
        qual = self.mod.rsplit('.', 1)[-1] + '.' + '.'.join(self.stack)
        self.generic_visit(node)
        enter = ast.Expr(_call('_vf_h_enter', ast.Constant(qual)))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, enter)
        self.stack.pop()
        self.in_class = saved
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        saved, self.in_class = self.in_class, 1
        self.generic_visit(node)
        self.in_class = saved
        self.stack.pop()
        return node

    # ---- loops
    def _loop(self, node):
        self.generic_visit(node)
        if isinstance(node, ast.While):
            node.test = self._test(node.test)
        node.body.insert(0, ast.Expr(_call('_vf_h_tick')))
        return node

    visit_While = _loop
    visit_For = _loop

    # ---- tests
    def _test(self, t):
        """t was already visited."""
        if self.in_class:
            return t
        if isinstance(t, ast.BoolOp) and all(_pure2(v) for v in t.values):
            vals = [self._test(v) for v in t.values]
            lam = [ast.Lambda(args=_noargs(), body=v) for v in vals]
            return _call('_vf_h_or' if isinstance(t.op, ast.Or) else '_vf_h_and', *lam)
        return t

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self._test(node.test)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test = self._test(node.test)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.ifs = [self._test(t) for t in node.ifs]
        return node

    # ---- displays
    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('_vf_h_dict', node), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return _call('_vf_h_SymDict', gen)

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call('_vf_h_SymSet', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call('_vf_h_SymSet', ast.GeneratorExp(elt=node.elt, generators=node.generators))

    # ---- strings
    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return _call('_vf_h_fstr', *parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call('_vf_h_mod', node.left, node.right)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in STR_METHODS:
            return ast.Call(func=ast.Name(id='_vf_h_meth', ctx=ast.Load()),
                            args=[node.func.value, ast.Constant(node.func.attr)] + node.args, keywords=node.keywords)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return _call('_vf_h_in', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                return _call('_vf_h_notin', node.left, node.comparators[0])
            return node
        if not self.in_class and all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq)) for o in node.ops) \
                and _pure2(node):
            lams = []
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                lams.append(ast.Lambda(args=_noargs(), body=ast.Compare(left=left, ops=[op], comparators=[right])))
                left = right
            return _call('_vf_h_and', *lams)
        return node


def _pure2(n):
    """Pure, allowing the hooks inserted by this transformer."""
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in ('_vf_h_in', '_vf_h_notin', '_vf_h_and', '_vf_h_or', 'len', '_vf_h_mod'):
                continue
            return False
        if isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            return False
    return True


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


# ------------------------------------------------------------------ hooks
def h_enter(q):
    core.ENGINE.functions.add(q)


def h_tick():
    core.ENGINE.tick()


def h_dict(d):
    return SymDict(d)


def h_in(x, c):
    if isinstance(c, SymStr) or (isinstance(c, str) and isinstance(x, SymStr)):
        return core.promote(c).contains(x)
    if isinstance(c, (list, tuple)) and isinstance(x, Sym) and len(c) <= 64:
        conds = []
        for y in c:
            r = x == y
            if r is True:
                return True
            if isinstance(r, SymBool):
                conds.append(r)
        return core.sym_or(*conds)
    if isinstance(c, (dict, set, frozenset)) and not isinstance(c, SymDict) and not core.is_concrete(x):
        for y in c:
            if core.key_eq(x, y):
                return True
        return False
    return x in c


def h_notin(x, c):
    return core.sym_not(h_in(x, c))


def _merge(thunks, is_or):
    acc = []
    v = not is_or
    for t in thunks:
        try:
            v = t()
        except Exception:
            if acc:
                c = core.sym_or(*acc) if is_or else core.sym_and(*acc)
                if bool(c) == is_or:
                    return is_or
            raise
        if isinstance(v, SymBool):
            acc.append(v)
            continue
        if isinstance(v, (SymInt, SymReal)):
            acc.append(SymBool(v.e != 0))
            continue
        if bool(v) == is_or:
            if not acc:
                return v
            # short circuit value reached only if the symbolic operands before it did not decide
            return is_or
    if not acc:
        return v
    return core.sym_or(*acc) if is_or else core.sym_and(*acc)


def h_or(*thunks):
    return _merge(thunks, True)


def h_and(*thunks):
    return _merge(thunks, False)


_CONV = {-1: None, 115: 's', 114: 'r', 97: 'a'}


def h_fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, SymStr) and conv in (-1, 115) and not spec:
            out.append(v)
            sym = True
            continue
        if isinstance(v, SymStr):
            v = v.concretise()
        if conv == 115:
            v = shims.vstr(v)
        elif conv == 114:
            v = repr(v)
        elif conv == 97:
            v = ascii(v)
        out.append(format(v, spec))
    if not sym:
        return ''.join(out)
    chars = []
    for o in out:
        chars.extend(core.chars_of(o))
    return core.mkstr(chars)


def h_mod(a, b):
    if isinstance(a, (str, bytes)) and core.contains_sym(b):
        def tok(x):
            if isinstance(x, SymInt):
                return core.ENGINE.token(x)
            if isinstance(x, SymStr):
                return x.concretise()
            return x
        b = tuple(tok(x) for x in b) if isinstance(b, tuple) else (
            {k: tok(v) for k, v in b.items()} if isinstance(b, dict) else tok(b))
    return a % b


def h_meth(obj, name, *a, **k):
    if type(obj) is str and name != 'format':
        for x in a:
            if isinstance(x, SymStr) or (name == 'join' and not isinstance(x, (str, bytes))):
                if name == 'join':
                    items = list(x)
                    if not any(isinstance(i, SymStr) for i in items):
                        return obj.join(items)
                    return core.promote(obj).join(items)
                return getattr(core.promote(obj), name)(*a, **k)
            if isinstance(x, tuple) and any(isinstance(i, SymStr) for i in x):
                return getattr(core.promote(obj), name)(*a, **k)
    elif type(obj) is bytes and any(isinstance(x, (SymInt, SymBytes)) for x in a):
        if any(isinstance(x, SymBytes) for x in a) and name not in ('join',):
            return getattr(SymBytes(list(obj)), name)(*a, **k)
        if name == 'join':
            items = list(a[0])
            out = []
            for n, i in enumerate(items):
                if n:
                    out += list(obj)
                out += list(i)
            return core.mkbytes(out)
    return getattr(obj, name)(*a, **k)


HOOKS = {
    '_vf_h_enter': h_enter, '_vf_h_tick': h_tick, '_vf_h_dict': h_dict, '_vf_h_SymDict': SymDict, '_vf_h_SymSet': SymSet,
    '_vf_h_in': h_in, '_vf_h_notin': h_notin, '_vf_h_or': h_or, '_vf_h_and': h_and, '_vf_h_fstr': h_fstr,
    '_vf_h_mod': h_mod, '_vf_h_meth': h_meth,
}


def make_builtins():
    b = dict(vars(builtins))
    b.update(shims.BUILTINS)
    real_import = builtins.__import__

    def vf_import(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split('.')[0]
            if root in shims.MODULES:
                m = shims.MODULES[root]
                if fromlist and '.' in name:
                    for part in name.split('.')[1:]:
                        m = getattr(m, part)
                return m
        return real_import(name, globals, locals, fromlist, level)

    b['__import__'] = vf_import
    b.update(HOOKS)
    return b


_BUILTINS = None


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        global _BUILTINS
        if _BUILTINS is None:
            _BUILTINS = make_builtins()
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Instr(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec')
        module.__dict__['__builtins__'] = _BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base):
            fn = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, fn, loader=Loader(fn), submodule_search_locations=[base])
        fn = base + '.py'
        if os.path.isfile(fn):
            return importlib.util.spec_from_file_location(name, fn, loader=Loader(fn))
        return None


def install(repo='/repo'):
    sys.dont_write_bytecode = True
    site = '/opt/venv/lib/python3.12/site-packages'
    if site not in sys.path:
        sys.path.append(site)
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[m]
    sys.meta_path.insert(0, Finder(repo))
