import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State
INF = Real("INF")

TU = '''#include "/repo/include/arc_utilities/voxel_grid.hpp"
struct Thing { int id; };
inline void use() {
  typedef VoxelGrid::VoxelGrid<Thing> G; G g; const G& c = g; Thing t; VoxelGrid::GRID_INDEX i; Eigen::Isometry3d T; std::vector<Thing> raw;
  c.IndexInBounds(1, 2, 3); c.IndexInBounds(i); c.GetImmutable(i); c.GetImmutable(int64_t(1), int64_t(2), int64_t(3)); g.GetMutable(i); g.GetMutable(int64_t(1), int64_t(2), int64_t(3));
  const Thing& ct = t;
  g.SetValue(i, ct); g.SetValue(int64_t(1), int64_t(2), int64_t(3), ct); g.SetValue(i, std::move(t)); g.SetValue(int64_t(1), int64_t(2), int64_t(3), std::move(t));
  g.Initialize(T, 1.0, 1.0, 1.0, int64_t(1), int64_t(2), int64_t(3), t, t); g.Initialize(T, 1.0, 1.0, 1.0, 1.0, 2.0, 3.0, t, t);
  g.Initialize(1.0, 1.0, 1.0, int64_t(1), int64_t(2), int64_t(3), t, t); g.Initialize(1.0, 1.0, 1.0, 1.0, 2.0, 3.0, t, t);
  g.ResetWithDefault(); g.ResetWithNewValue(t); g.ResetWithNewDefault(t); g.SetRawData(raw); g.GetDefaultValue(); g.GetOOBValue(); g.SetDefaultValue(t); g.SetOOBValue(t); g.GetNumXCells(); g.GetNumYCells(); g.GetNumZCells();
  g.HashDataIndex(1, 2, 3);
  int64_t n = 2; double d = 1.0;
  G c1(T, d, d, d, d, t), c2(T, d, d, d, d, t, t), c3(T, d, d, d, d, d, d, t), c4(T, d, d, d, d, d, d, t, t), c5(T, d, n, n, n, t), c6(T, d, n, n, n, t, t), c7(T, d, d, d, n, n, n, t), c8(T, d, d, d, n, n, n, t, t);
  G e1(d, d, d, d, t), e2(d, d, d, d, t, t), e3(d, d, d, d, d, d, t), e4(d, d, d, d, d, d, t, t), e5(d, n, n, n, t), e6(d, n, n, n, t, t), e7(d, d, d, n, n, n, t), e8(d, d, d, n, n, n, t, t);
}
'''
C = Check('C11', tus=dict(main=TU), proof_scope='every grid size and cell type; every sequence of reads, writes and resets (by the class invariant)',
          assumptions=['fewer than 2^60 cells, and cell counts below 2^53 (so that they convert exactly)', 'operator new returns storage aligned for the type, so RequireAlignment accepts (assumed contract: no effect)', 'a virtual member function is the grid class\'s own (no overriding subclass exists in the repository)'])
q = 'VoxelGrid::VoxelGrid::'


def counts(g):
    return g.f['num_x_cells_'], g.f['num_y_cells_'], g.f['num_z_cells_']


def shape(g):
    """the class invariant: strides and storage match the cell counts"""
    f = g.f
    nx, ny, nz = counts(g)
    return And(nx >= 0, ny >= 0, nz >= 0, f['stride2_'] == nz, f['stride1_'] == ny * nz, f['data_'].len == nx * ny * nz, nx * ny * nz < 2 ** 60, ny * nz < 2 ** 60, nx * ny < 2 ** 60)


def inside(g, p):
    return And(*[And(0 <= a, a < n) for a, n in zip(p, counts(g))])


def addr(g, p):
    nx, ny, nz = counts(g)
    return p[0] * (ny * nz) + p[1] * nz + p[2]


def cell(g, p):
    return Select(g.f['data_'].arr, addr(g, p))


def address_lemmas(E, st, g, p):
    """an index inside the grid has an address inside the storage, without overflow on the way"""
    nx, ny, nz = counts(g)
    x, y, z = p
    H = And(shape(g), inside(g, p))
    E.lemma(st, 'one row fits', Implies(H, And(y * nz >= 0, y * nz + nz <= ny * nz)))
    E.lemma(st, 'one slab fits', Implies(H, And(x * (ny * nz) >= 0, x * (ny * nz) + ny * nz <= nx * (ny * nz))))
    E.lemma(st, 'storage size', Implies(H, nx * (ny * nz) == nx * ny * nz))
    E.lemma(st, 'address in storage', Implies(H, And(0 <= addr(g, p), addr(g, p) < g.f['data_'].len)))


def distinct_lemma(E, st, g, p, r):
    """different cells have different addresses"""
    nx, ny, nz = counts(g)
    H = And(shape(g), inside(g, p), inside(g, r))
    u, v = p[0] * ny + p[1], r[0] * ny + r[1]
    for a, b, t in ((u, v, 'row'), (v, u, 'row, other way')):
        E.lemma(st, f'rows are disjoint ({t})', Implies(And(H, a < b), a * nz + nz <= b * nz))
    E.lemma(st, 'address by rows', And(addr(g, p) == u * nz + p[2], addr(g, r) == v * nz + r[2]))
    for a, b, t in ((p, r, ''), (r, p, ', other way')):
        E.lemma(st, f'slabs are disjoint{t}', Implies(And(H, a[0] < b[0]), a[0] * ny + ny <= b[0] * ny))
    same = And(*[a == b for a, b in zip(p, r)])
    E.lemma(st, 'one address, one cell', Implies(And(H, addr(g, p) == addr(g, r)), same))


def kept(g, h, *but):
    """every member but these is unchanged"""
    def eq(a, b):
        if hasattr(a, 'e'):
            return And(*[x == y for r, s in zip(a.e, b.e) for x, y in zip(r, s)])
        if hasattr(a, 'arr'):
            return And(a.len == b.len, a.arr == b.arr)
        if hasattr(a, 'f'):
            return And(*[eq(a.f[k], b.f[k]) for k in a.f])
        return a == b
    return And(*[eq(g.f[k], h.f[k]) for k in g.f if k not in but])


def pos(c):
    a = c.arg(0)
    return [a.f[k] for k in 'xyz'] if hasattr(a, 'f') else [c.arg(0), c.arg(1), c.arg(2)]


OTHER = list(Ints('other_x other_y other_z'))


def by(prog, nm, pred=lambda ts: True):
    return [f for f in prog.find(q + nm) if pred([prog.ty(p['t']).s for p in f['p']])]


def pack(E, v):
    return E.S.pack(v.ty, v) if not is_expr(v) else v


def tag(prog, f):
    return f['q'].split('::')[-1] + '(' + ', '.join(prog.ty(p['t']).s.split('::')[-1] for p in f['p']) + ')'


GRIDPRE = lambda c: [('grid', shape(c.this))]
index_args = lambda ts: 'GRID_INDEX' in ts[0] or ts[:3] == ['long'] * 3
GRIDPRE_T = GRIDPRE


@C.unit('bounds')
def _(prog):
    out = []
    for f in by(prog, 'IndexInBounds'):
        E = Engine(prog)
        E.verify(f, name=tag(prog, f), post=lambda c: [('exactly the cells of the grid', c.ret == inside(c.this, pos(c)))])
        out.append(E)
    f = by(prog, 'HashDataIndex')[0]
    E = Engine(prog)
    E.verify(f, setup=lambda E, c, st: address_lemmas(E, st, c.this, pos(c)), pre=lambda c: GRIDPRE(c) + [('inside', inside(c.this, pos(c)))], post=lambda c: [('the address', c.ret == addr(c.this, pos(c)))])
    return out + [E]


@C.unit('reads')
def _(prog):
    out = []
    for f in by(prog, 'GetImmutable', index_args) + by(prog, 'GetMutable', index_args):
        E = Engine(prog)

        def post(c, E=E):
            r = c.ret
            ref = r.f['first']
            v = E.read(c.st1, ref) if hasattr(ref, 'acc') else ref
            want = If(inside(c.this, pos(c)), cell(c.this, pos(c)), pack(E, c.this.f['oob_value_']))
            out = [('flag says inside', r.f['second'] == inside(c.this, pos(c))), ('the cell, or the out-of-bounds value', pack(E, v) == want), ('nothing changes', kept(c.this, c.this1))]
            return out
        E.verify(f, name=tag(prog, f), setup=lambda E, c, st: address_lemmas(E, st, c.this, pos(c)), pre=GRIDPRE, post=post)
        out.append(E)
    return out


@C.unit('writes')
def _(prog):
    out = []
    for f in by(prog, 'SetValue', index_args):
        E = Engine(prog)
        n = len(f['p'])

        def setup(E, c, st):
            address_lemmas(E, st, c.this, pos(c))
            address_lemmas(E, st, c.this, OTHER)
            distinct_lemma(E, st, c.this, pos(c), OTHER)

        def post(c, E=E, n=n):
            g, h, p = c.this, c.this1, pos(c)
            ok = inside(g, p)
            v = pack(E, c.arg(n - 1))
            here = And(*[a == b for a, b in zip(p, OTHER)])
            return [('refused exactly outside', c.ret == ok), ('other members unchanged', kept(g, h, 'data_')), ('still a grid', shape(h)),
                    ('a refused write changes nothing', Implies(Not(ok), kept(g, h))),
                    ('exactly the cell changes', Implies(And(ok, inside(g, OTHER)), cell(h, OTHER) == If(here, v, cell(g, OTHER))))]
        E.verify(f, name=tag(prog, f), setup=setup, pre=GRIDPRE, post=post)
        out.append(E)
    return out


def filled(E, h, v):
    i = Int('i')
    d = h.f['data_']
    return FA([i], Implies(And(0 <= i, i < d.len), Select(d.arr, i) == pack(E, v)), Select(d.arr, i))


@C.unit('resets and whole-grid data')
def _(prog):
    out = []

    def go(nm, post, **kw):
        f = by(prog, nm)[0]
        E = Engine(prog)
        E.verify(f, name=nm, pre=GRIDPRE, post=lambda c: post(E, c), **kw)
        out.append(E)
    go('ResetWithDefault', lambda E, c: [('filled', filled(E, c.this1, c.this.f['default_value_'])), ('grid', shape(c.this1)), ('rest', kept(c.this, c.this1, 'data_'))])
    go('ResetWithNewValue', lambda E, c: [('filled', filled(E, c.this1, c.arg(0))), ('grid', shape(c.this1)), ('rest', kept(c.this, c.this1, 'data_'))])
    go('ResetWithNewDefault', lambda E, c: [('filled', filled(E, c.this1, c.arg(0))), ('default', pack(E, c.this1.f['default_value_']) == pack(E, c.arg(0))), ('grid', shape(c.this1)), ('rest', kept(c.this, c.this1, 'data_', 'default_value_'))])

    def raw(E, c):
        a, d = c.arg(0), c.this1.f['data_']
        ok = a.len == c.this.f['data_'].len
        i = Int('i')
        return [('accepted exactly at the right length', c.ret == ok), ('refused data changes nothing', Implies(Not(ok), kept(c.this, c.this1))), ('grid', shape(c.this1)), ('rest', kept(c.this, c.this1, 'data_')),
                ('the data', Implies(ok, And(d.len == a.len, FA([i], Implies(And(0 <= i, i < a.len), Select(d.arr, i) == Select(a.arr, i)), Select(d.arr, i)))))]
    go('SetRawData', raw)
    go('SetDefaultValue', lambda E, c: [('value', pack(E, c.this1.f['default_value_']) == pack(E, c.arg(0))), ('rest', kept(c.this, c.this1, 'default_value_'))])
    go('SetOOBValue', lambda E, c: [('value', pack(E, c.this1.f['oob_value_']) == pack(E, c.arg(0))), ('rest', kept(c.this, c.this1, 'oob_value_'))])
    go('GetDefaultValue', lambda E, c: [('value', pack(E, c.ret) == pack(E, c.this.f['default_value_']))])
    go('GetOOBValue', lambda E, c: [('value', pack(E, c.ret) == pack(E, c.this.f['oob_value_']))])
    for k in 'XYZ':
        go(f'GetNum{k}Cells', lambda E, c, k=k: [('count', c.ret == c.this.f[f'num_{k.lower()}_cells_'])])
    return out


def ceil_of(x, n):
    return And(ToReal(n) >= x, ToReal(n) < x + 1)


@C.unit('initialization')
def _(prog):
    out = []
    ctors = [f for f in prog.find(q + 'VoxelGrid') if len(f['p']) > 1]
    for f in by(prog, 'Initialize') + ctors:
        ts = [prog.ty(p['t']).s for p in f['p']]
        k = 1 if 'Transform' in ts[0] else 0
        ints = 'long' in ts
        nd = ts.count('double')
        ns = nd if ints else nd - 3          # one cell size for all axes, or one per axis
        nv = len(ts) - k - ns - 3            # default value, and the out-of-bounds value if it differs
        E = Engine(prog)
        for a in prog.find('arc_helpers::RequireAlignment'):
            E.contracts[a['id']] = Contract(modifies=lambda c: [])

        def sizes(c, k=k, ns=ns):
            s = [c.arg(k + i) for i in range(ns)]
            return s if ns == 3 else s * 3, [c.arg(k + ns + i) for i in range(3)]

        def values(c, k=k, ns=ns, nv=nv):
            return c.arg(k + ns + 3), c.arg(k + ns + 3 + nv - 1)

        def legal(c, sizes=sizes):
            return And(*[And(x > 0, x < INF) if x.is_real() else x > 0 for a in sizes(c) for x in a])

        def pre(c, sizes=sizes, ints=ints):
            s, n = sizes(c)
            nx, ny, nz = Ints('nx ny nz')
            if ints:
                return [('counts', Implies(And(*[x > 0 for x in n]), And(n[1] * n[2] < 2 ** 53, n[0] * (n[1] * n[2]) < 2 ** 53, n[0] * n[1] * n[2] < 2 ** 53, n[0] * n[1] < 2 ** 53, *[x < 2 ** 53 for x in n])))]
            return [('counts', Implies(And(*[x > 0 for x in s + n]), And(*[ceil_of(n[i] / s[i], (nx, ny, nz)[i]) for i in range(3)],
                                                                        ny * nz < 2 ** 53, nx * (ny * nz) < 2 ** 53, nx * ny * nz < 2 ** 53, nx * ny < 2 ** 53, nx < 2 ** 53, ny < 2 ** 53, nz < 2 ** 53)))]

        def post(c, E=E, sizes=sizes, ints=ints, k=k, values=values):
            s, n = sizes(c)
            g = c.this1
            cs = counts(g)
            f = g.f
            T = f['origin_transform_'].e
            dv, ov = values(c)
            o = [('grid', shape(g)), ('initialized', f['initialized_']), ('cell counts', And(*[(a == b if ints else ceil_of(b / z, a)) for a, b, z in zip(cs, n, s)])),
                 ('cell sizes', And(f['cell_x_size_'] == s[0], f['cell_y_size_'] == s[1], f['cell_z_size_'] == s[2])),
                 ('inverse cell sizes', And(*[f[f'inv_cell_{a}_size_'] * b == 1 for a, b in zip('xyz', s)])),
                 ('grid sizes', And(*[f[f'{a}_size_'] == ToReal(m) * b for a, b, m in zip('xyz', s, cs)])),
                 ('every cell has the default value', filled(E, g, dv)),
                 ('default and out-of-bounds values', And(pack(E, f['default_value_']) == pack(E, dv), pack(E, f['oob_value_']) == pack(E, ov)))]
            if k:
                o.append(('origin as given', And(*[a == b for r, w in zip(T, c.arg(0).e) for a, b in zip(r, w)])))
            else:
                o.append(('origin at the corner of a centred grid', And(*[T[i][j] == (1 if i == j else 0) for i in range(3) for j in range(3)],
                                                                       *[T[i][3] == -f[f'{a}_size_'] / 2 for i, a in enumerate('xyz')])))
            I = f['inverse_origin_transform_'].e
            o.append(('inverse transform', And(*[I[i][j] == T[j][i] for i in range(3) for j in range(3)], *[I[i][3] == -(T[0][i] * T[0][3] + T[1][i] * T[1][3] + T[2][i] * T[2][3]) for i in range(3)])))
            return o
        E.verify(f, name=tag(prog, f), pre=pre, throws=lambda c, legal=legal: Not(legal(c)), post=lambda c, post=post, legal=legal: [('sizes are positive', legal(c))] + post(c))
        out.append(E)
    return out


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c11.cpp')):
    C.cpp('c11.cpp')
if __name__ == '__main__':
    run(C)
