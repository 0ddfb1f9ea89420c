"""Mechanical extraction: import /repo/pygfunction with loops and comprehensions in a form
that also runs over symbolic ranges. The transformation is total on the source text."""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
from . import shim as S
from . import loops as L

REPO = os.environ.get('PYVC_REPO', '/repo')
PKG = 'pygfunction'
SOURCES = {}        # module -> sha256 of the text read on this run
FUNCS = {}          # qualified name -> (file, first line, last line)
EXTRACT = {'for': 0, 'comp': 0, 'attr': 0, 'while': 0}

_COMP = (ast.ListComp, ast.GeneratorExp)


class _Names(ast.NodeVisitor):
    """names assigned in a block (not in nested scopes)"""

    def __init__(self):
        self.out = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.out:
            self.out.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.out:
            self.out.append(n.name)

    def visit_ClassDef(self, n):
        if n.name not in self.out:
            self.out.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            nm = (a.asname or a.name).split('.')[0]
            if nm not in self.out:
                self.out.append(nm)
    visit_ImportFrom = visit_Import


class _HasJump(ast.NodeVisitor):
    def __init__(self):
        self.bad = False

    def visit_FunctionDef(self, n):
        pass

    def visit_Lambda(self, n):
        pass

    def visit_Return(self, n):
        self.bad = True

    def visit_Yield(self, n):
        self.bad = True

    def visit_Break(self, n):
        if not self.depth:
            self.bad = True

    def visit_Continue(self, n):
        if not self.depth:
            self.bad = True
    depth = 0

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
    visit_While = visit_For


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'update', 'clear', 'setdefault', 'add', 'fill', 'popitem'}


class _Mutated(ast.NodeVisitor):
    """names whose object is mutated through a method or a subscript in a block"""

    def __init__(self):
        self.out = []

    def visit_FunctionDef(self, n):
        pass

    def visit_Lambda(self, n):
        pass

    def _add(self, b):
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name) and b.id not in self.out:
            self.out.append(b.id)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            self._add(n.func.value)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self._add(n.value)
        self.generic_visit(n)


class Tr(ast.NodeTransformer):
    def __init__(self, modname, fname):
        self.modname, self.fname = modname, fname
        self.scope = []
        self.count = 0
        self.nonl = [set()]
        self.inclass = []
        self.locals = [set()]
        self.params = [set()]
        self.loops = [0]

    def _fresh(self, p):
        self.count += 1
        return f'_vc_{p}{self.count}'

    def visit_FunctionDef(self, n):
        self.scope.append(n.name)
        FUNCS[self.modname + '.' + '.'.join(self.scope)] = (self.fname, n.lineno, n.end_lineno)
        g = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                g.update(x.names)
        self.nonl.append(g)
        loc = _Names()
        for x in n.body:
            loc.visit(x)
        self.locals.append((set(loc.out) | {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}) - g)
        self.params.append({a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs} - set(loc.out))
        self.inclass.append(False)
        n.body = [y for x in n.body for y in self._as_list(self.visit(x))]
        self.inclass.pop()
        self.locals.pop()
        self.params.pop()
        self.nonl.pop()
        self.scope.pop()
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.inclass.append(True)
        n.body = [y for x in n.body for y in self._as_list(self.visit(x))]
        self.inclass.pop()
        self.scope.pop()
        return n

    @staticmethod
    def _as_list(x):
        return x if isinstance(x, list) else [] if x is None else [x]

    # -- imports of numeric libraries ----------------------------------------------
    def visit_Import(self, n):
        out = []
        for a in n.names:
            top = a.name.split('.')[0]
            if top in ('numpy', 'scipy', 'matplotlib'):
                tgt = a.asname or top
                out.append(ast.parse(f'{tgt} = _vc_import({a.name if a.asname else top!r})' if False else
                                     f'{tgt} = _vc_import({(a.name if a.asname else top)!r})').body[0])
            else:
                out.append(ast.Import(names=[a]))
        return [ast.copy_location(x, n) for x in out]

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module and n.module.split('.')[0] in ('numpy', 'scipy', 'matplotlib'):
            out = []
            for a in n.names:
                out.append(ast.parse(f'{a.asname or a.name} = _vc_import({n.module!r}, {a.name!r})').body[0])
            return [ast.copy_location(x, n) for x in out]
        return n

    # -- comprehensions --------------------------------------------------------------
    def _comp(self, n):
        gens = n.generators
        elt = self.visit(n.elt)
        if any(isinstance(x, (ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return n
        EXTRACT['comp'] += 1

        def lam(target, body):
            if isinstance(target, ast.Name):
                return ast.Lambda(args=_args([target.id]), body=body)
            # tuple target: nested lambda applied to the unpacked element
            p = self._fresh('t')
            return ast.Lambda(args=_args([p]), body=_unpack(target, ast.Name(p, ast.Load()), body))

        def build(k):
            g = gens[k]
            it = self.visit(g.iter)
            conds = [self.visit(c) for c in g.ifs]
            cond = None
            if conds:
                cond = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
            if k == len(gens) - 1:
                args = [it, lam(g.target, elt)]
                if cond is not None:
                    args.append(lam(g.target, cond))
                return _call('_vc_listcomp', args)
            inner = build(k + 1)
            if cond is not None:
                inner = ast.IfExp(cond, inner, ast.List([], ast.Load()))
            return _call('_vc_flatcomp', [it, lam(g.target, inner)])
        return ast.copy_location(build(0), n)

    visit_ListComp = _comp
    visit_GeneratorExp = _comp

    # -- in-place mutation of native containers under a symbolic loop ------------------
    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and not self._localname(n.func.value):
            n.func.value = _call('_vc_mut', [n.func.value])
        return n

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, (ast.Store, ast.Del)) and not self._localname(n.value):
            n.value = _call('_vc_mut', [n.value])
        return n

    def _localname(self, b):
        while isinstance(b, ast.Subscript):
            b = b.value
        return isinstance(b, ast.Name) and b.id in self.locals[-1] and b.id not in self.params[-1]

    def visit_Expr(self, n):
        # a local list extended by a list of symbolic length becomes one itself
        c = n.value
        if (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'extend' and isinstance(c.func.value, ast.Name)
                and len(c.args) == 1 and not c.keywords and self._localname(c.func.value) and self.inclass and not self.inclass[-1]):
            x = c.func.value.id
            arg = self.visit(c.args[0])
            return ast.copy_location(ast.fix_missing_locations(ast.Assign([ast.Name(x, ast.Store())], _call('_vc_extend', [ast.Name(x, ast.Load()), arg]))), n)
        return self.generic_visit(n)

    # -- attribute assignment -----------------------------------------------------------
    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            EXTRACT['attr'] += 1
            return ast.copy_location(ast.Expr(_call('_vc_setattr', [t.value, ast.Constant(t.attr), n.value])), n)
        if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for t in n.targets for x in ast.walk(t)):
            # tuple of attributes / chained assignment: go through temporaries
            tmp = self._fresh('v')
            out = [ast.Assign([ast.Name(tmp, ast.Store())], n.value)]
            for t in n.targets:
                post = []
                t2 = self._detach(t, post)
                out.append(ast.Assign([t2], ast.Name(tmp, ast.Load())))
                out += post
            return [ast.copy_location(ast.fix_missing_locations(x), n) for x in out]
        return n

    def _detach(self, t, post):
        if isinstance(t, ast.Attribute):
            nm = self._fresh('a')
            post.append(ast.Expr(_call('_vc_setattr', [t.value, ast.Constant(t.attr), ast.Name(nm, ast.Load())])))
            return ast.Name(nm, ast.Store())
        if isinstance(t, (ast.Tuple, ast.List)):
            return type(t)([self._detach(x, post) for x in t.elts], ast.Store())
        if isinstance(t, ast.Starred):
            return ast.Starred(self._detach(t.value, post), ast.Store())
        return t

    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if isinstance(n.target, ast.Attribute):
            t = n.target
            EXTRACT['attr'] += 1
            cur = ast.Attribute(t.value, t.attr, ast.Load())
            tmp = self._fresh('v')
            out = [ast.Assign([ast.Name(tmp, ast.Store())], cur),
                   ast.AugAssign(ast.Name(tmp, ast.Store()), n.op, n.value),
                   ast.Expr(_call('_vc_setattr', [t.value, ast.Constant(t.attr), ast.Name(tmp, ast.Load())]))]
            return [ast.copy_location(ast.fix_missing_locations(x), n) for x in out]
        return n

    def visit_AnnAssign(self, n):
        n = self.generic_visit(n)
        if n.value is not None and isinstance(n.target, (ast.Attribute, ast.Name)) and not (self.inclass and self.inclass[-1]):
            a = ast.copy_location(ast.Assign([n.target], n.value), n)
            return self.visit_Assign(a) if isinstance(n.target, ast.Attribute) else a
        return n

    # -- loops --------------------------------------------------------------------------------
    def visit_For(self, n):
        names = _Names()
        for x in n.body:
            names.visit(x)
        tn = _Names()
        tn.visit(n.target)
        jump = _HasJump()
        for x in n.body:
            jump.visit(x)
        mut = _Mutated()
        for x in n.body:
            mut.visit(x)
        n = self.generic_visit(n)
        infunc = self.inclass and not self.inclass[-1]
        assigned = [x for x in dict.fromkeys(names.out + tn.out + [y for y in mut.out if y in self.locals[-1]])]
        if not infunc or jump.bad or n.orelse:
            # native only
            n.iter = _call('_vc_native', [n.iter, ast.Constant(f'{self.fname}:{n.lineno}')])
            return n
        EXTRACT['for'] += 1
        itn, fb, fg, fs = (self._fresh(x) for x in ('it', 'body', 'get', 'set'))
        self.count += 1
        where = f'{os.path.basename(self.fname)}:{n.lineno}'
        # variables of the enclosing function declared global / nonlocal keep that
        gl = [x for x in assigned if x in self.nonl[-1]]
        nl = [x for x in assigned if x not in self.nonl[-1]]
        native = ast.For(target=n.target, iter=_call('_vc_native', [ast.Name(itn, ast.Load()), ast.Constant(where)]),
                         body=n.body, orelse=[])
        xarg = self._fresh('x')
        # second copy of the body for the symbolic branch
        import copy
        body2 = copy.deepcopy(n.body)
        nonloc = [ast.Nonlocal(nl)] if nl else []
        glob = [ast.Nonlocal(gl)] if gl else []
        bdef = ast.FunctionDef(name=fb, args=_args([xarg]), decorator_list=[], type_params=[],
                               body=nonloc + glob + [ast.Assign([copy.deepcopy(n.target)], ast.Name(xarg, ast.Load()))] + body2)
        gets = ', '.join(f"{x!r}: (lambda: {x})" for x in assigned)
        gsrc = f"def {fg}():\n    return _vc_getvars({{{gets}}})"
        gdef = ast.parse(gsrc).body[0]
        dname = self._fresh('d')
        ssrc = f"def {fs}({dname}):\n"
        if assigned:
            ssrc += f"    nonlocal {', '.join(assigned)}\n"
        for x in assigned:
            ssrc += f"    if {dname}[{x!r}] is _vc_UNSET:\n        {x} = None\n        del {x}\n    else:\n        {x} = {dname}[{x!r}]\n"
        ssrc += "    return None"
        sdef = ast.parse(ssrc).body[0]
        sym = [bdef, gdef, sdef,
               ast.Expr(_call('_vc_symloop', [ast.Name(itn, ast.Load()), ast.Name(fb, ast.Load()), ast.Name(fg, ast.Load()),
                                              ast.Name(fs, ast.Load()), ast.Constant(where),
                                              ast.Constant(self.modname + '.' + '.'.join(self.scope))]))]
        out = [ast.Assign([ast.Name(itn, ast.Store())], n.iter),
               ast.If(_call('_vc_is_symiter', [ast.Name(itn, ast.Load())]), sym, [native])]
        return [ast.copy_location(ast.fix_missing_locations(x), n) for x in out]


    def visit_While(self, n):
        """while loops under an invariant (when the driver supplies one), else native"""
        names, mut = _Names(), _Mutated()
        for x in n.body:
            names.visit(x)
            mut.visit(x)
        jump = _HasJump()
        for x in n.body:
            jump.visit(x)
        n = self.generic_visit(n)
        infunc = self.inclass and not self.inclass[-1]
        if not infunc or jump.bad or n.orelse:
            return n
        import copy
        EXTRACT['while'] += 1
        q = self.modname + '.' + '.'.join(self.scope)
        assigned = list(dict.fromkeys(names.out + [y for y in mut.out if y in self.locals[-1]]))
        fb, fc, fg, fs = (self._fresh(x) for x in ('body', 'cond', 'get', 'set'))
        nonloc = [ast.Nonlocal(assigned)] if assigned else []
        bdef = ast.FunctionDef(name=fb, args=_args([]), decorator_list=[], type_params=[], body=nonloc + copy.deepcopy(n.body))
        cdef = ast.FunctionDef(name=fc, args=_args([]), decorator_list=[], type_params=[], body=[ast.Return(copy.deepcopy(n.test))])
        gets = ', '.join(f"{x!r}: (lambda: {x})" for x in assigned)
        gdef = ast.parse(f"def {fg}():\n    return _vc_getvars({{{gets}}})").body[0]
        dname = self._fresh('d')
        ssrc = f"def {fs}({dname}):\n"
        if assigned:
            ssrc += f"    nonlocal {', '.join(assigned)}\n"
        for x in assigned:
            ssrc += f"    if {dname}[{x!r}] is _vc_UNSET:\n        {x} = None\n        del {x}\n    else:\n        {x} = {dname}[{x!r}]\n"
        ssrc += "    return None"
        sdef = ast.parse(ssrc).body[0]
        call = ast.Expr(_call('_vc_whileloop', [ast.Constant(q), ast.Name(fc, ast.Load()), ast.Name(fb, ast.Load()),
                                                ast.Name(fg, ast.Load()), ast.Name(fs, ast.Load())]))
        out = [ast.If(_call('_vc_has_invariant', [ast.Constant(q)]), [bdef, cdef, gdef, sdef, call], [n])]
        return [ast.copy_location(ast.fix_missing_locations(x), n) for x in out]


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _call(f, args):
    return ast.Call(ast.Name(f, ast.Load()), args, [])


def _unpack(target, value, body):
    names, paths = [], []

    def go(t, path):
        if isinstance(t, ast.Name):
            names.append(t.id)
            paths.append(path)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                go(x, path + [(i, len(t.elts))])
        else:
            raise SyntaxError('comprehension target')
    go(target, [])
    args = []
    for p in paths:
        e = value
        for i, n in p:
            e = _call('_vc_item', [e, ast.Constant(i), ast.Constant(n)])
        args.append(e)
    return ast.Call(ast.Lambda(args=_args(names), body=body), args, [])


def _item(v, i, n):
    if isinstance(v, (tuple, list)):
        if len(v) != n:
            raise ValueError('wrong number of values to unpack')
        return v[i]
    return list(v)[i]


def _getvars(thunks):
    out = {}
    for k, f in thunks.items():
        try:
            out[k] = f()
        except NameError:
            out[k] = L.UNSET
    return out


def _native(it, where):
    if S.is_symiter(it):
        raise S.Unsupported(f'loop with a jump over a symbolic range at {where}')
    return S.iter_native(it)


OVERRIDES = {}      # 'scipy.integrate.quad_vec' -> replacement


def vc_import(name, attr=None):
    full = name if attr is None else f'{name}.{attr}'
    if full in OVERRIDES:
        return OVERRIDES[full]
    if name == 'numpy':
        return S.np if attr is None else getattr(S.np, attr)
    if name == 'numpy.typing':
        import numpy.typing as t
        return t
    if full in ('scipy.constants.pi',):
        return S.np.pi
    if full == 'scipy.special.erf':
        return S.make_erf()
    if full in ('scipy.integrate.quad', 'scipy.integrate.quad_vec'):
        from . import integral
        return integral.quad
    if full == 'scipy.special.erfc':
        return S.elementwise_fun(lambda x: 1 - S._erf1(x))
    if full == 'scipy.special.roots_legendre':
        return S.roots_legendre
    if full == 'scipy.special.binom':
        import scipy.special
        return scipy.special.binom
    if full == 'scipy.linalg.block_diag':
        return S.block_diag
    if full == 'scipy.spatial.distance.pdist':
        return S.pdist
    if full == 'scipy.interpolate.interp1d':
        return S.Interp1d
    if full.startswith('numpy.'):
        m = importlib.import_module(name)
        return m if attr is None else getattr(m, attr)
    if attr is None:
        return S.OpaqueModule(name)
    return S.Opaque(full)


def _extend(x, v):
    if type(x) is list and getattr(v, '_symlist', False):
        # the local variable and the arguments of this call are the only references
        if sys.getrefcount(x) > 4:
            raise S.Unsupported('extension of a shared list by a list of symbolic length')
        return S.A.SymList([(1, lambda i, e=e: e) for e in x] + list(v.segs))
    x.extend(v)
    return x


VCNAMES = {
    '_vc_import': vc_import, '_vc_listcomp': L.listcomp, '_vc_flatcomp': L.flatcomp, '_vc_item': _item,
    '_vc_extend': _extend, '_vc_setattr': L.setattr_, '_vc_symloop': L.symloop, '_vc_is_symiter': S.is_symiter, '_vc_native': _native,
    '_vc_getvars': _getvars, '_vc_UNSET': L.UNSET, '_vc_whileloop': L.whileloop, '_vc_has_invariant': L.has_invariant, '_vc_mut': L.mut,
}


class _Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path, self.ispkg = path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        src = open(self.path).read()
        SOURCES[mod.__name__] = hashlib.sha256(src.encode()).hexdigest()
        tree = ast.parse(src)
        tree = Tr(mod.__name__, self.path).visit(tree)
        ast.fix_missing_locations(tree)
        mod.__dict__.update(VCNAMES)
        mod.__dict__.update(S.BUILTINS)
        exec(compile(tree, self.path, 'exec'), mod.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name == 'scp' or name.startswith('scp.'):
            return importlib.machinery.ModuleSpec(name, _ScpLoader(), is_package=True)
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        rel = name.replace('.', '/')
        base = os.path.join(REPO, rel)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, _Loader(f, True), origin=f, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + '.py'
        if os.path.exists(f):
            return importlib.machinery.ModuleSpec(name, _Loader(f, False), origin=f)
        return None


class _ScpLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return S.OpaqueModule(spec.name)

    def exec_module(self, mod):
        mod.__path__ = []


def install():
    sys.meta_path.insert(0, _Finder())


def fresh_package():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
        del sys.modules[k]
    import importlib
    return importlib.import_module(PKG)
