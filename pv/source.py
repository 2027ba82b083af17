"""The source under verification: ASTs of the live modules."""
import ast
import os
import sys
import types

_FILES = {}
ROOTS = []          # directories whose functions are interpreted
SRC = None


def add_root(d):
    d = os.path.realpath(d)
    if d not in ROOTS: ROOTS.append(d)


class FuncInfo(object):
    __slots__ = ('node', 'cls', 'filename', 'qualname', 'locals_', 'globals_decl', 'nonlocals', 'is_gen')


def _index(filename):
    r = _FILES.get(filename)
    if r is None:
        with open(filename) as f: tree = ast.parse(f.read(), filename)
        r = {}

        def walk(node, cls, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                    fi = FuncInfo()
                    fi.node, fi.cls, fi.filename = ch, cls, filename
                    name = getattr(ch, 'name', '<lambda>')
                    fi.qualname = qual + name
                    analyse(fi)
                    line = ch.decorator_list[0].lineno if getattr(ch, 'decorator_list', None) else ch.lineno
                    r.setdefault((name, line), fi)
                    walk(ch, cls, qual + name + '.<locals>.')
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, ch.name, qual + ch.name + '.')
                else:
                    walk(ch, cls, qual)
        walk(tree, None, '')
        _FILES[filename] = r
    return r


def analyse(fi):
    names, gl, nl = set(), set(), set()
    fi.is_gen = False

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)

    def walk(node):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.FunctionDef):
                names.add(ch.name)
                for d in ch.decorator_list + ch.args.defaults: walk(d)
                continue
            if isinstance(ch, (ast.Lambda, ast.ClassDef)):
                if isinstance(ch, ast.ClassDef): names.add(ch.name)
                continue
            if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # targets are local to the comprehension; walrus targets are not
                for n in ast.walk(ch):
                    if isinstance(n, ast.NamedExpr): names.add(n.target.id)
                continue
            if isinstance(ch, ast.Global): gl.update(ch.names)
            if isinstance(ch, ast.Nonlocal): nl.update(ch.names)
            if isinstance(ch, (ast.Yield, ast.YieldFrom)): fi.is_gen = True
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)): names.add(ch.id)
            if isinstance(ch, ast.ExceptHandler) and ch.name: names.add(ch.name)
            if isinstance(ch, ast.alias): names.add((ch.asname or ch.name).split('.')[0])
            walk(ch)
    node = fi.node
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs: names.add(x.arg)
    if a.vararg: names.add(a.vararg.arg)
    if a.kwarg: names.add(a.kwarg.arg)
    if isinstance(node, ast.FunctionDef):
        for st in node.body: walk(ast.Module(body=[st], type_ignores=[]))
    fi.locals_ = names - gl - nl
    fi.globals_decl, fi.nonlocals = gl, nl


def info(func):
    """FuncInfo of a Python function of an interpreted module, or None."""
    code = getattr(func, '__code__', None)
    if code is None: return None
    fn = os.path.realpath(code.co_filename)
    if not any(fn.startswith(r + os.sep) for r in ROOTS): return None
    return _index(fn).get((func.__name__ if func.__name__ != '<lambda>' else '<lambda>', code.co_firstlineno)) or \
        _index(fn).get((code.co_name, code.co_firstlineno))


def literals(files):
    """Constants that occur in the source: seeds for concrete search."""
    out = {'int': set(), 'str': set(), 'bytes': set()}
    for f in files:
        with open(f) as fh: tree = ast.parse(fh.read())
        doc = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): doc.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in doc:
                v = n.value
                if isinstance(v, bool) or v is None: continue
                if isinstance(v, int): out['int'].add(v)
                elif isinstance(v, str) and len(v) < 60: out['str'].add(v)
                elif isinstance(v, bytes) and len(v) < 60: out['bytes'].add(v)
    return out
