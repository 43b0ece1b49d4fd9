"""execution of the repository's PyOP2 C kernels on symbolic data: the kernel text handed to op2.Kernel is parsed (pycparser) and
executed statement by statement; gather/scatter use the real maps; double arithmetic is exact"""
import re
import math
from fractions import Fraction as Fr
import numpy as np
import firedrake as fd
from firedrake import op2
from pycparser import c_parser, c_ast
from symx.core import *


def exact(x, rtol=4e-16):
    """a floating point number as the simple rational it stands for"""
    if is_sym(x) or isinstance(x, Fr):
        return x
    x = float(x)
    q = Fr(x).limit_denominator(10**5)
    return q if abs(float(q) - x) <= rtol*max(1., abs(x)) else Fr(x)


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    c = z3.simplify(raw(c) if not isinstance(c, SymBool) else c.e)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    a, b = raw(a), raw(b)
    if a.sort() != b.sort():
        a, b = [z3.ToReal(q) if z3.is_int(q) else q for q in (a, b)]
    return SymReal(z3.If(c, a, b))


def fmax(a, b):
    return ite(a > b, a, b)


def fmin(a, b):
    return ite(a < b, a, b)


def fabs(a):
    return ite(a >= 0, a, -a)


def cround(x):
    return Fr(math.floor(abs(x) + Fr(1, 2)))*(1 if x >= 0 else -1)


class Fn:
    """functions of the C library; unknown ones are passed as ``extra``"""
    table = dict(fmax=fmax, fmin=fmin, fabs=fabs, round=cround, sqrt=lambda x: sym_sqrt(x) if is_sym(x) else exact(math.sqrt(x)),
                 pow=lambda x, p: sym_pow(x, p) if is_sym(x) or is_sym(p) else exact(float(x)**float(p)))


class _Break(Exception):
    pass


class Kernel:
    """op2.Kernel"""
    def __init__(self, code, name, **kw):
        code = str(code)
        self.name = name
        code = re.sub(r'//[^\n]*', '', code)
        code = re.sub(r'/\*.*?\*/', '', code, flags=re.S)
        code = re.sub(r'^\s*#[^\n]*', '', code, flags=re.M)
        ast = c_parser.CParser().parse(code)
        for d in ast.ext:
            if isinstance(d, c_ast.FuncDef) and d.decl.name == name:
                self.fn = d
        self.params = [p.name for p in self.fn.decl.type.args.params]
        self.ptypes = [self._base(p.type) for p in self.fn.decl.type.args.params]

    @staticmethod
    def _base(t):
        while not isinstance(t, c_ast.IdentifierType):
            t = t.type
        return 'double' if 'double' in t.names or 'float' in t.names else 'int'

    def run(self, *bufs, extra=()):
        self.env = dict(zip(self.params, bufs))
        self.types = dict(zip(self.params, self.ptypes))
        self.funs = dict(Fn.table, **dict(extra))
        self.stmt(self.fn.body)

    def conv(self, v, t):
        if t == 'double':
            return exact(v) if not is_sym(v) else v
        if is_sym(v):
            return v if v.isint else v.trunc()
        return int(v)

    def stmt(self, s):
        k = type(s).__name__
        if k == 'Compound':
            for q in s.block_items or []:
                self.stmt(q)
        elif k == 'Decl':
            t = self._base(s.type)
            self.types[s.name] = t
            if isinstance(s.type, c_ast.ArrayDecl):
                n = self.ev(s.type.dim)
                ini = [self.ev(e) for e in s.init.exprs] if s.init is not None else []
                self.env[s.name] = [self.conv(e, t) for e in ini] + [None if not ini else self.conv(0, t)]*(n - len(ini))
            else:
                self.env[s.name] = self.conv(self.ev(s.init), t) if s.init is not None else None
        elif k == 'DeclList':
            for d in s.decls:
                self.stmt(d)
        elif k == 'For':
            if s.init is not None:
                self.stmt(s.init)
            n = 0
            while s.cond is None or self.truth(self.ev(s.cond)):
                try:
                    self.stmt(s.stmt)
                except _Break:
                    break
                if s.next is not None:
                    self.ev(s.next)
                n += 1
                if n > 10000:
                    raise RuntimeError('kernel loop does not end')
        elif k == 'While':
            while self.truth(self.ev(s.cond)):
                try:
                    self.stmt(s.stmt)
                except _Break:
                    break
        elif k == 'Break':
            raise _Break()
        elif k == 'If':
            if self.truth(self.ev(s.cond)):
                self.stmt(s.iftrue)
            elif s.iffalse is not None:
                self.stmt(s.iffalse)
        elif k == 'EmptyStatement':
            pass
        else:
            self.ev(s)

    def truth(self, v):
        return bool(v)

    def idx(self, i):
        if is_sym(i):
            return i.__index__()
        if isinstance(i, Fr):
            raise TypeError('array index is a double')
        return i

    def ev(self, e):
        k = type(e).__name__
        if k == 'Constant':
            if e.type in ('int', 'unsigned int', 'long int'):
                return int(e.value.rstrip('uUlL'), 0)
            return Fr(e.value.rstrip('fF'))
        if k == 'ID':
            return self.env[e.name]
        if k == 'ArrayRef':
            a = self.ev(e.name)
            i = self.idx(self.ev(e.subscript))
            if not 0 <= i < len(a):
                raise IndexError(f'kernel {self.name}: index {i} outside array of {len(a)}')
            return a[i]
        if k == 'UnaryOp':
            if e.op in ('p++', '++', 'p--', '--'):
                v = self.ev(e.expr)
                w = v + (1 if '+' in e.op else -1)
                self.store(e.expr, w)
                return v if e.op[0] == 'p' else w
            v = self.ev(e.expr)
            if e.op == '-':
                return -v
            if e.op == '+':
                return v
            if e.op == '!':
                return not self.truth(v)
            if e.op == '*':
                return v[0]
            raise NotImplementedError(e.op)
        if k == 'BinaryOp':
            if e.op == '&&':
                return self.truth(self.ev(e.left)) and self.truth(self.ev(e.right))
            if e.op == '||':
                return self.truth(self.ev(e.left)) or self.truth(self.ev(e.right))
            return self.bin(e.op, self.ev(e.left), self.ev(e.right))
        if k == 'TernaryOp':
            c = self.ev(e.cond)
            if is_sym(c) or isinstance(c, SymBool):
                return ite(c, self.ev(e.iftrue), self.ev(e.iffalse))
            return self.ev(e.iftrue) if c else self.ev(e.iffalse)
        if k == 'Assignment':
            v = self.ev(e.rvalue)
            if e.op != '=':
                v = self.bin(e.op[:-1], self.ev(e.lvalue), v)
            self.store(e.lvalue, v)
            return v
        if k == 'FuncCall':
            return self.funs[e.name.name](*[self.ev(a) for a in (e.args.exprs if e.args else [])])
        if k == 'Cast':
            return self.conv(self.ev(e.expr), self._base(e.to_type.type))
        if k == 'ExprList':
            for q in e.exprs:
                v = self.ev(q)
            return v
        raise NotImplementedError(k)

    def bin(self, op, a, b):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a*b
        if op == '/':
            if isinstance(a, int) and isinstance(b, int):
                return int(Fr(a, b))
            return a/b
        if op == '%':
            return int(math.fmod(a, b))
        return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b,
                '!=': lambda: a != b}[op]()

    def store(self, l, v):
        if isinstance(l, c_ast.ID):
            self.env[l.name] = self.conv(v, self.types[l.name])
        elif isinstance(l, c_ast.ArrayRef):
            a = self.ev(l.name)
            i = self.idx(self.ev(l.subscript))
            if not 0 <= i < len(a):
                raise IndexError(f'kernel {self.name}: index {i} outside array of {len(a)}')
            base = l.name
            while isinstance(base, c_ast.ArrayRef):
                base = base.name
            a[i] = self.conv(v, self.types[base.name])
        elif isinstance(l, c_ast.UnaryOp) and l.op == '*':
            self.ev(l.expr)[0] = self.conv(v, self.types[l.expr.name])
        else:
            raise NotImplementedError(type(l).__name__)


class SymArg:
    def __init__(self, data, access, map_):
        self.data, self.access, self.map_ = data, access, map_


class SymDat:
    """values of a field that may be symbolic"""
    def __init__(self, v):
        self.v = v

    def __call__(self, access, map_=None):
        return SymArg(self, access, map_)

    @property
    def data(self):
        return self.v
    data_with_halos = data_ro = data_ro_with_halos = data_wo = data_wo_with_halos = data

    def zero(self, *a, **k):
        self.v[...] = Fr(0)

    @property
    def shape(self):
        return self.v.shape


class SF(fd.Function):
    """a Firedrake function whose nodal values may be symbolic"""
    def __init__(self, V, *a, val=None, **k):
        super().__init__(V, *a, **k)
        if isinstance(V, fd.Function) and val is None:
            val = np.vectorize(exact, otypes=[object])(V.dat.data_ro)
        n = self._data.dat.data_ro.shape
        self.symdat = SymDat(np.full(n, Fr(0), dtype=object) if val is None else np.asarray(val, dtype=object).reshape(n))

    @property
    def dat(self):
        return self.symdat

    def copy(self, deepcopy=False):
        return SF(self.function_space(), val=self.symdat.v.copy())

    def assign(self, o, *a, **k):
        self.symdat.v[...] = values(o)
        return self


def values(o):
    if isinstance(o, SF):
        return o.symdat.v
    if isinstance(o, fd.Function):
        return np.vectorize(exact, otypes=[object])(o.dat.data_ro)
    if isinstance(o, fd.Constant):
        v = np.asarray(o.values(), dtype=object)
        return exact(v[0]) if v.size == 1 else v
    return exact(o) if np.isscalar(o) else o


def nodes_of(map_, region=None, flat=None):
    """per iteration point: the nodes of the map"""
    vals = np.asarray(map_.values)
    its = map_.iterset
    off = getattr(map_, 'offset', None)
    if not getattr(its, '_extruded', False) or off is None:
        return [list(vals[c]) for c in (range(len(vals)) if flat is None else flat)]
    off = np.asarray(off)
    out = []
    for c, r in enumerate(vals):
        nl = cells_of(its, c)
        for l in layers_in(nl, region):
            out.append(list(r + l*off))
    return out


def cells_of(its, c):
    la = np.asarray(its.layers_array)
    row = la[0] if len(la) == 1 else la[c]
    return int(row[1] - row[0] - 1)


def layers_in(n, region):
    if region == op2.ON_BOTTOM:
        return [0]
    if region == op2.ON_TOP:
        return [n - 1]
    return range(n)


def par_loop(kernel, its, *args, iteration_region=None, extra=(), **kw):
    """sequential execution of a kernel over the iteration set"""
    n = None
    maps = {}
    for a in args:
        m = getattr(a, 'map_', None)
        if m is not None:
            maps[id(m)] = m
            n = len(m.values)
    if getattr(its, '_extruded', False):
        base = []
        for c in range(its.size if not hasattr(its, 'total_size') else its.total_size):
            base += [c]*len(layers_in(cells_of(its, c), iteration_region))
    else:
        base = list(range(n))
    n = len(base)
    maps = {k: nodes_of(m, iteration_region, base) for k, m in maps.items()}
    for p in range(n):
        bufs, back = [], []
        for a in args:
            d = a.data
            sym = isinstance(d, SymDat)
            arr = d.v if sym else np.asarray(d.data_ro)
            if getattr(a, 'map_', None) is None:
                if isinstance(d, op2.Global):
                    bufs.append([conv(q) for q in arr.ravel()])
                else:
                    bufs.append([conv(q) for q in np.ravel(arr[base[p]])])
                if a.access.name != 'READ':
                    raise NotImplementedError('global written by a kernel')
                continue
            ns = maps[id(a.map_)][p]
            acc = a.access.name
            vals = [conv(q) for i in ns for q in np.ravel(arr[i])]
            if acc in ('WRITE',):
                vals = [None]*len(vals)
            if acc == 'INC':
                vals = [Fr(0)]*len(vals)
            bufs.append(vals)
            if acc != 'READ':
                back.append((acc, arr, ns, vals))
        kernel.run(*bufs, extra=extra)
        for acc, arr, ns, vals in back:
            k = len(vals)//len(ns)
            for j, i in enumerate(ns):
                for c in range(k):
                    v = vals[j*k + c]
                    at = (i, c) if arr.ndim > 1 else i
                    if acc == 'INC':
                        arr[at] = arr[at] + v
                    elif acc == 'MAX':
                        arr[at] = fmax(arr[at], v)
                    elif acc == 'MIN':
                        arr[at] = fmin(arr[at], v)
                    elif v is not None:
                        arr[at] = v


def conv(q):
    if isinstance(q, (np.integer, int)):
        return int(q)
    if isinstance(q, (np.floating, float)):
        return exact(q)
    return q


class Op2:
    """pyop2.op2 with symbolic kernels"""
    Kernel = Kernel
    par_loop = staticmethod(par_loop)
    parloop = par_loop

    def __getattr__(self, k):
        return getattr(op2, k)


# ---- loopy kernels of Firedrake's par_loop ------------------------------------------------------------------------------------
class Buf(list):
    @property
    def dofs(self):
        return len(self)

    def __getitem__(self, i):
        return list.__getitem__(self, i[0] if isinstance(i, tuple) else i)


def loopy_code(instr):
    """the instruction language of these kernels is Python apart from block ends and type annotations"""
    out, depth = [], 0
    for line in instr.strip().splitlines():
        s = re.sub(r'<\w+>\s*', '', line.strip())
        if not s:
            continue
        if s == 'end':
            depth -= 1
            continue
        m = re.match(r'for (\w+)$', s)
        if m:
            out.append('    '*depth + f'for {m[1]} in _range("{m[1]}"):')
            depth += 1
        else:
            out.append('    '*depth + s)
    src = '\n'.join(out)
    import ast

    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            return ast.Call(ast.Name('_div', ast.Load()), [n.left, n.right], []) if isinstance(n.op, ast.Div) else n

        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.Call(ast.Name('_ite', ast.Load()), [n.test, ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.body),
                                                           ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.orelse)], [])
    return compile(ast.fix_missing_locations(T().visit(ast.parse(src))), '<loopy>', 'exec')


def loopy_loop(kernel, measure, args, hook=None, only=None, div=None, **kw):
    domain, instr = kernel
    code = loopy_code(instr)
    packed = {k: (f.symdat.v, acc.name, np.asarray(nodes_of(f.function_space().cell_node_map())))
              for k, (f, acc) in args.items()}
    n = {len(m) for _, _, m in packed.values()}
    assert len(n) == 1
    bound = {}
    for d in re.findall(r'0\s*<=\s*(\w+)\s*<\s*([\w.]+)', domain):
        bound[d[0]] = d[1]
    for p in range(n.pop()):
        if only is not None and p != only:
            continue
        bufs = {k: Buf([v[i] for i in m[p]]) for k, (v, acc, m) in packed.items()}
        if hook:
            hook(p, bufs)
        env = dict(bufs, fmax=fmax, fmin=fmin, _ite=ite_lazy, _div=div or (lambda a, b: a/b))
        env['_range'] = lambda i: range(eval(bound[i], dict(bufs)))
        exec(code, env)
        for k, (v, acc, m) in packed.items():
            if acc == 'READ':
                continue
            for j, i in enumerate(m[p]):
                q = bufs[k][j]
                v[i] = fmax(v[i], q) if acc == 'MAX' else fmin(v[i], q) if acc == 'MIN' else q


def ite_lazy(c, a, b):
    return a() if bool(c) else b()
