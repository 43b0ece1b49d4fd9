"""stand-ins for the moving extruded mesh: nodal fields whose values may be symbolic, on the real function spaces and node maps"""
from stand import *
import types
import numpy as np
import firedrake as fd
import ckernel as ckn
from ckernel import SF, exact
import thetis.utility3d as u3
import thetis.utility as ut
from thetis.utility import get_functionspace
from symx.ufleval import add, mul


def arr(o):
    if isinstance(o, Arr):
        return o.v
    if isinstance(o, fd.Function):
        return o.dat.data if isinstance(o, SF) else np.vectorize(exact, otypes=[object])(o.dat.data_ro)
    if isinstance(o, fd.Constant):
        return exact(float(o))
    return o if is_sym(o) or isinstance(o, Fr) else exact(o)


def el(f, a, b):
    a, b = arr(a), arr(b)
    return Arr(np.vectorize(f, otypes=[object])(a, b))


class Arr:
    """nodal values"""
    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return el(lambda a, b: a + b, self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return el(lambda a, b: a - b, self, o)

    def __rsub__(self, o):
        return el(lambda a, b: b - a, self, o)

    def __mul__(self, o):
        return el(mul, self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return el(lambda a, b: a/b, self, o)

    def __neg__(self):
        return el(lambda a, b: -a, self, Fr(0))


class NF(SF):
    """a field of nodal values with Firedrake's in-place arithmetic"""
    def __init__(self, V, *a, val=None, **k):
        src = V if isinstance(V, SF) else None
        super().__init__(V.function_space() if src is not None else V, *a, val=src.dat.data.copy() if src is not None and val is None else val, **k)

    def assign(self, o, *a, **k):
        v = arr(o)
        self.symdat.v[...] = v.copy() if isinstance(v, np.ndarray) else v
        return self

    def __iadd__(self, o):
        return self.assign(el(lambda a, b: a + b, self, o))

    def __isub__(self, o):
        return self.assign(el(lambda a, b: a - b, self, o))

    def __imul__(self, o):
        return self.assign(el(mul, self, o))

    def __itruediv__(self, o):
        return self.assign(el(lambda a, b: a/b, self, o))


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__neg__'):
    setattr(NF, _n, getattr(Arr, _n))


_MESH = {}


def meshes(nl):
    if nl not in _MESH:
        m2 = fd.UnitTriangleMesh() if nl != 'two' else fd.UnitSquareMesh(1, 1)
        m3 = fd.ExtrudedMesh(m2, nl if nl != 'two' else 2)
        _MESH[nl] = m2, m3
    return _MESH[nl]


_MAPS = {}


def layout(V2, V3, m3, nl):
    """for every node: which water column, which level (continuous) or which layer and end (discontinuous)"""
    key = (id(V2), id(V3))
    if key in _MAPS:
        return _MAPS[key][0]
    if not hasattr(m3, '_orig'):
        m3._orig = m3.coordinates.dat.data_ro.copy()
    keep = m3.coordinates.dat.data_ro.copy()
    m3.coordinates.dat.data[:] = m3._orig

    def xyz(V):
        S = V if V.value_size == 1 else fd.FunctionSpace(V.mesh(), V.sub(0).ufl_element())
        x = fd.SpatialCoordinate(V.mesh())
        return S, [fd.Function(S).interpolate(x[i]).dat.data_ro for i in range(V.mesh().geometric_dimension)]
    S2, c2 = xyz(V2)
    verts = {k: i for i, k in enumerate(sorted({(round(x, 6), round(y, 6)) for x, y in zip(*c2)}))}
    cols2 = []
    for x, y in zip(*c2):
        k = (round(x, 6), round(y, 6))
        cols2.append(verts[k])
    S3, c3 = xyz(V3)
    m = S3.cell_node_map()
    off = np.asarray(m.offset)
    cells = []
    for ci, row in enumerate(m.values):
        for k in range(nl):
            ns = np.asarray(row) + k*off
            zm = c3[2][ns].mean()
            for nd in ns:
                cells.append((ci, k, verts[(round(c3[0][nd], 6), round(c3[1][nd], 6))], int(c3[2][nd] > zm), int(nd)))
    m3.coordinates.dat.data[:] = keep
    _MAPS[key] = (dict(ncol=len(verts), cols2=cols2, cells=cells, verts=verts), V2, V3)
    return _MAPS[key][0]
