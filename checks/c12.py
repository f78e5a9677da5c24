import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State
import c11
from c11 import shape, inside, addr, cell, address_lemmas, distinct_lemma, kept, pack, tag, OTHER, by

TU = '''#include "/repo/include/arc_utilities/voxel_grid.hpp"
struct Thing { int id; };
inline void use() {
  typedef VoxelGrid::VoxelGrid<Thing> G; G g; const G& c = g; Thing t; const Thing& ct = t; VoxelGrid::GRID_INDEX i; Eigen::Isometry3d T; Eigen::Vector3d v3; Eigen::Vector4d v4;
  c.PointInFrameToGridIndex(1.0, 2.0, 3.0); c.PointInFrameToGridIndex3d(v3); c.PointInFrameToGridIndex4d(v4);
  c.LocationToGridIndex(1.0, 2.0, 3.0); c.LocationToGridIndex3d(v3); c.LocationToGridIndex4d(v4);
  c.LocationInBounds(1.0, 2.0, 3.0); c.LocationInBounds3d(v3); c.LocationInBounds4d(v4);
  c.GridIndexToLocation(i); c.GridIndexToLocation(1, 2, 3); c.GridIndexToLocationGridFrame(i); c.GridIndexToLocationGridFrame(1, 2, 3);
  c.GetImmutable3d(v3); c.GetImmutable4d(v4); c.GetImmutable(1.0, 2.0, 3.0);
  g.GetMutable3d(v3); g.GetMutable4d(v4); g.GetMutable(1.0, 2.0, 3.0);
  g.SetValue3d(v3, ct); g.SetValue4d(v4, ct); g.SetValue(1.0, 2.0, 3.0, ct);
  g.SetValue3d(v3, std::move(t)); g.SetValue4d(v4, std::move(t)); g.SetValue(1.0, 2.0, 3.0, std::move(t));
  g.UpdateOriginTransform(T);
}
'''
C = Check('C12', tus=dict(main=TU), proof_scope='every grid frame, cell size, location and index',
          assumptions=['double arithmetic is exact (real numbers)', 'cell indices stay below 2^60', 'the origin transform is a rigid motion (Isometry3d) with last row 0 0 0 1, its cached inverse is its inverse (proved for Initialize in C11 and for UpdateOriginTransform here)',
                       'a virtual member function is the grid class\'s own (no overriding subclass exists in the repository)'])
q = 'VoxelGrid::VoxelGrid::'
LIM = 2 ** 60


def rigid(T):
    t = T.e
    r = range(3)
    return [('orthonormal rows', And(*[sum(t[i][k] * t[j][k] for k in r) == (1 if i == j else 0) for i in r for j in r])),
            ('orthonormal columns', And(*[sum(t[k][i] * t[k][j] for k in r) == (1 if i == j else 0) for i in r for j in r])),
            ('last row', And(*[t[3][i] == (1 if i == 3 else 0) for i in range(4)]))]


def inverse_of(T, I):
    t, v = T.e, I.e
    return And(*[v[i][j] == t[j][i] for i in range(3) for j in range(3)], *[v[i][3] == -(t[0][i] * t[0][3] + t[1][i] * t[1][3] + t[2][i] * t[2][3]) for i in range(3)],
               *[v[3][i] == (1 if i == 3 else 0) for i in range(4)])


def cells(g):
    return [g.f[f'cell_{a}_size_'] for a in 'xyz']


def inv_cells(g):
    return [g.f[f'inv_cell_{a}_size_'] for a in 'xyz']


def frame(g):
    """class invariant of the coordinate frame"""
    return And(*[And(c > 0, v * c == 1) for c, v in zip(cells(g), inv_cells(g))], inverse_of(g.f['origin_transform_'], g.f['inverse_origin_transform_']))


def coords(c, n=0):
    a = c.arg(n)
    if hasattr(a, 'e'):
        return [r[0] for r in a.e][:3], (a.e[3][0] if len(a.e) == 4 else RealVal(1))
    return [c.arg(n + i) for i in range(3)], RealVal(1)


def in_frame(g, p):
    """the location in the grid's own frame"""
    v, w = p
    I = g.f['inverse_origin_transform_'].e
    return [I[i][0] * v[0] + I[i][1] * v[1] + I[i][2] * v[2] + I[i][3] * w for i in range(3)]


def index_of(g, p):
    return [ToInt(a * b) for a, b in zip(p, inv_cells(g))]


def bounded(g, p):
    return And(*[And(a * b < LIM, a * b > -LIM) for a, b in zip(p, inv_cells(g))])


def xyz(r):
    return [r.f[k] for k in 'xyz']


def same(a, b):
    return And(*[x == y for x, y in zip(a, b)])


def in_box(g, idx, p):
    """the point lies in the box of the cell: idx * size <= p < (idx + 1) * size on each axis"""
    return And(*[And(ToReal(i) * s <= a, a < (ToReal(i) + 1) * s) for i, s, a in zip(idx, cells(g), p)])


def box_lemmas(E, st, g, p):
    a, v, s = Reals('a v s')
    i = Int('i')
    E.lemma(st, 'floor is the cell of the point', FA([a, v, s, i], Implies(And(s > 0, v * s == 1, ToReal(i) <= a * v, a * v < ToReal(i) + 1), And(ToReal(i) * s <= a * v * s, a * v * s < (ToReal(i) + 1) * s, a * v * s == a))))
    for x, c, w, n in zip(p, cells(g), inv_cells(g), 'xyz'):
        i = ToInt(x * w)
        H = And(c > 0, w * c == 1)
        E.lemma(st, f'{n}: scale', Implies(H, And((x * w) * c == x, (ToReal(i)) * c <= (x * w) * c, (x * w) * c < (ToReal(i) + 1) * c)))


@C.unit('cell of a point in the grid frame')
def _(prog):
    out = []
    for f in by(prog, 'PointInFrameToGridIndex') + by(prog, 'PointInFrameToGridIndex3d') + by(prog, 'PointInFrameToGridIndex4d'):
        E = Engine(prog)
        E.verify(f, name=tag(prog, f), setup=lambda E, c, st: box_lemmas(E, st, c.this, coords(c)[0]), pre=lambda c: [('frame', frame(c.this)), ('range', bounded(c.this, coords(c)[0]))],
                 post=lambda c: [('the cell whose box holds the point', in_box(c.this, xyz(c.ret), coords(c)[0])), ('its index', same(xyz(c.ret), index_of(c.this, coords(c)[0])))])
        out.append(E)
    return out


@C.unit('cell of a location')
def _(prog):
    out = []
    for f in by(prog, 'LocationToGridIndex') + by(prog, 'LocationToGridIndex3d') + by(prog, 'LocationToGridIndex4d'):
        E = Engine(prog)
        E.verify(f, name=tag(prog, f), setup=lambda E, c, st: box_lemmas(E, st, c.this, in_frame(c.this, coords(c))),
                 pre=lambda c: [('frame', frame(c.this)), ('range', bounded(c.this, in_frame(c.this, coords(c))))],
                 post=lambda c: [('the cell whose box holds the location', in_box(c.this, xyz(c.ret), in_frame(c.this, coords(c)))), ('its index', same(xyz(c.ret), index_of(c.this, in_frame(c.this, coords(c)))))])
        out.append(E)
    for f in by(prog, 'LocationInBounds') + by(prog, 'LocationInBounds3d') + by(prog, 'LocationInBounds4d'):
        E = Engine(prog)

        def setup(E, c, st):
            g, p = c.this, in_frame(c.this, coords(c))
            box_lemmas(E, st, g, p)
            for x, w, s, n, a in zip(p, inv_cells(g), cells(g), (g.f['num_x_cells_'], g.f['num_y_cells_'], g.f['num_z_cells_']), 'xyz'):
                H = And(frame(g), n >= 0)
                E.lemma(st, f'{a}: inside, in cells and in lengths', Implies(And(s > 0, w * s == 1), And((x * w >= 0) == (x >= 0), (x * w < ToReal(n)) == (x < ToReal(n) * s))))

        def post(c):
            g, p = c.this, in_frame(c.this, coords(c))
            ns = (g.f['num_x_cells_'], g.f['num_y_cells_'], g.f['num_z_cells_'])
            return [('exactly the box of the grid', c.ret == And(*[And(0 <= x, x < ToReal(n) * s) for x, n, s in zip(p, ns, cells(g))]))]
        E.verify(f, name=tag(prog, f), setup=setup, pre=lambda c: [('frame', frame(c.this)), ('grid', shape(c.this)), ('range', bounded(c.this, in_frame(c.this, coords(c))))], post=post)
        out.append(E)
    return out


def center(g, i):
    return [s * (ToReal(k) + Q(1, 2)) for s, k in zip(cells(g), i)]


def idx_arg(c):
    a = c.arg(0)
    return xyz(a) if hasattr(a, 'f') else [c.arg(0), c.arg(1), c.arg(2)]


def to_world(g, v):
    T = g.f['origin_transform_'].e
    return [T[i][0] * v[0] + T[i][1] * v[1] + T[i][2] * v[2] + T[i][3] for i in range(3)]


def vec(m):
    return [r[0] for r in m.e]


@C.unit('location of a cell')
def _(prog):
    out = []
    rng = lambda c: [('frame', frame(c.this)), ('last row', rigid(c.this.f['origin_transform_'])[2][1]), ('range', And(*[And(k > -2 ** 53, k < 2 ** 53) for k in idx_arg(c)]))]
    for f in by(prog, 'GridIndexToLocationGridFrame'):
        E = Engine(prog)
        E.verify(f, name=tag(prog, f), pre=rng, post=lambda c: [('the middle of the cell', same(vec(c.ret), center(c.this, idx_arg(c)) + [RealVal(1)]))])
        out.append(E)
    for f in by(prog, 'GridIndexToLocation'):
        E = Engine(prog)
        E.verify(f, name=tag(prog, f), pre=rng, post=lambda c: [('the middle of the cell, in the world', same(vec(c.ret), to_world(c.this, center(c.this, idx_arg(c))) + [RealVal(1)]))])
        out.append(E)
    # round trip: the location of a cell lies in that cell
    f = by(prog, 'LocationToGridIndex4d')[0]
    E = Engine(prog)
    i = list(Ints('cell_x cell_y cell_z'))

    def setup(E, c, st):
        g = c.this
        T, I = g.f['origin_transform_'], g.f['inverse_origin_transform_']
        m = center(g, i)
        H = And(rigid(T)[1][1], inverse_of(T, I))
        t = T.e
        col = lambda a, b: sum(t[k][a] * t[k][b] for k in range(3))
        w = to_world(g, m)
        p = in_frame(g, (w, RealVal(1)))
        for a in range(3):
            E.lemma(st, f'rigid motion undone ({a})', Implies(H, p[a] == col(a, 0) * m[0] + col(a, 1) * m[1] + col(a, 2) * m[2]))
            E.lemma(st, f'rigid motion undone, exactly ({a})', Implies(H, p[a] == m[a]))
        for a, k, x, v, s in zip(range(3), i, m, inv_cells(g), cells(g)):
            E.lemma(st, 'middle of a cell', Implies(v * s == 1, x * v == ToReal(k) + Q(1, 2)))
            pa = [r[0] for r in c.arg(0).e]
            E.lemma(st, 'the location is the middle of the cell', Implies(And(v * s == 1, H, same(pa, w + [RealVal(1)])), in_frame(g, coords(c))[a] * v == ToReal(k) + Q(1, 2)))
    E.verify(f, name='LocationToGridIndex4d of GridIndexToLocation', setup=setup,
             pre=lambda c: [('frame', frame(c.this))] + rigid(c.this.f['origin_transform_']) + [('indices', And(*[And(k > -2 ** 53, k < 2 ** 53) for k in i])),
                            ('the location of a cell', same(vec(c.arg(0)), to_world(c.this, center(c.this, i)) + [RealVal(1)]))],
             post=lambda c: [('back to the same cell', same(xyz(c.ret), i))])
    out.append(E)
    f = by(prog, 'UpdateOriginTransform')[0]
    E = Engine(prog)
    E.verify(f, pre=lambda c: [('last row', rigid(c.arg(0))[2][1])], post=lambda c: [('inverse cached', inverse_of(c.this1.f['origin_transform_'], c.this1.f['inverse_origin_transform_'])),
                                                                                   ('origin as given', And(*[same(a, b) for a, b in zip(c.this1.f['origin_transform_'].e, c.arg(0).e)])),
                                                                                   ('rest', kept(c.this, c.this1, 'origin_transform_', 'inverse_origin_transform_'))])
    out.append(E)
    return out


PRE = lambda c: [('frame', frame(c.this)), ('grid', shape(c.this)), ('range', bounded(c.this, in_frame(c.this, coords(c))))]


def loc_args(ts):
    return 'Matrix' in ts[0] or ts[:3] == ['double'] * 3


@C.unit('reads by location')
def _(prog):
    out = []
    for n in ('GetImmutable3d', 'GetImmutable4d', 'GetImmutable', 'GetMutable3d', 'GetMutable4d', 'GetMutable'):
        for f in by(prog, n, loc_args):
            E = Engine(prog)

            def post(c, E=E):
                g = c.this
                p = index_of(g, in_frame(g, coords(c)))
                ref = c.ret.f['first']
                v = E.read(c.st1, ref) if hasattr(ref, 'acc') else ref
                return [('flag says inside', c.ret.f['second'] == inside(g, p)), ('the cell, or the out-of-bounds value', pack(E, v) == If(inside(g, p), cell(g, p), pack(E, g.f['oob_value_']))), ('nothing changes', kept(g, c.this1))]
            E.verify(f, name=tag(prog, f), setup=lambda E, c, st: address_lemmas(E, st, c.this, index_of(c.this, in_frame(c.this, coords(c)))), pre=PRE, post=post)
            out.append(E)
    return out


@C.unit('writes by location')
def _(prog):
    out = []
    for n in ('SetValue3d', 'SetValue4d', 'SetValue'):
        for f in by(prog, n, loc_args):
            E = Engine(prog)
            nargs = len(f['p'])
            def setup(E, c, st):
                p = index_of(c.this, in_frame(c.this, coords(c)))
                names = list(Ints('ix iy iz'))
                st.assume(same(names, p))
                st.ghost['p'] = names
                address_lemmas(E, st, c.this, names)
                address_lemmas(E, st, c.this, OTHER)
                distinct_lemma(E, st, c.this, names, OTHER)

            def post(c, E=E, nargs=nargs):
                g, h = c.this, c.this1
                p = c.st0.ghost['p'] if 'p' in c.st0.ghost else list(Ints('ix iy iz'))
                ok = inside(g, p)
                v = pack(E, c.arg(nargs - 1))
                here = same(p, OTHER)
                return [('refused exactly outside', c.ret == ok), ('other members unchanged', kept(g, h, 'data_')), ('a refused write changes nothing', Implies(Not(ok), kept(g, h))),
                        ('exactly the cell changes', Implies(And(ok, inside(g, OTHER)), cell(h, OTHER) == If(here, v, cell(g, OTHER))))]
            E.verify(f, name=tag(prog, f), setup=setup, pre=PRE, post=post)
            out.append(E)
    return out


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c12.cpp')):
    C.cpp('c12.cpp')
if __name__ == '__main__':
    run(C)
