import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State

TU = '''#include "/repo/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp"
struct Thing { int id; };
inline void use() {
  typedef VoxelGrid::DynamicSpatialHashedVoxelGrid<Thing> G; G g; const G& c = g; Thing t; const Thing& ct = t; Eigen::Isometry3d T; Eigen::Vector3d v; double d = 1.0; int64_t n = 2;
  c.GetImmutable(v); c.GetImmutable(d, d, d); g.GetMutable(v); g.GetMutable(d, d, d);
  g.SetCellValue(v, ct); g.SetCellValue(d, d, d, ct); g.SetCellValue(v, std::move(t)); g.SetCellValue(d, d, d, std::move(t));
  g.SetChunkValue(v, ct); g.SetChunkValue(d, d, d, ct); g.SetChunkValue(v, std::move(t)); g.SetChunkValue(d, d, d, std::move(t));
  g.Initialize(T, d, d, d, n, n, n, t); g.Initialize(d, d, d, n, n, n, t); g.GetDefaultValue(); g.SetDefaultValue(t); c.GetContainingChunkRegion(v);
  c.GetInternalChunks().begin()->second.GetIndexLocationInGrid(1, 2, 3); c.GetInternalChunks().begin()->second.GetElementSize();
  G c1(T, d, d, d, n, n, n, t), c2(T, d, n, n, n, t), c3(d, d, d, n, n, n, t), c4(d, n, n, n, t);
}
'''
C = Check('C14', tus=dict(main=TU), proof_scope='every grid, every location, every history of writes (by the class invariant)',
          assumptions=['double arithmetic is exact (real numbers)', 'chunk numbers stay below 2^53, a chunk has fewer than 2^53 cells', 'std::unordered_map finds a key exactly when an equal key was inserted (its hash is consistent with equality)'])
q = 'VoxelGrid::DynamicSpatialHashedVoxelGrid::'


INF = Real('INF')
G_CHUNK = 'VoxelGrid::DynamicSpatialHashedVoxelGridChunk::'
NF, IN_CHUNK, IN_CELL = 0, 1, 2
OTHER = list(Ints('other_x other_y other_z'))


def sizes(g):
    return [g.f[f'cell_{a}_size_'] for a in 'xyz'], [g.f[f'chunk_{a}_size_'] for a in 'xyz'], [g.f[f'chunk_num_{a}_cells_'] for a in 'xyz']


def grid(g):
    """class invariant of an initialized grid, apart from its chunks"""
    s, cs, n = sizes(g)
    return And(g.f['initialized_'], *[And(a > 0, a < INF, b == a * ToReal(m), b > 0, b < INF, m > 0, m < 2 ** 53) for a, b, m in zip(s, cs, n)], n[0] * n[1] * n[2] < 2 ** 53, n[0] * (n[1] * n[2]) < 2 ** 53, n[1] * n[2] < 2 ** 53, n[0] * n[1] < 2 ** 53,
               g.f['chunk_stride1_'] == n[1] * n[2], g.f['chunk_stride2_'] == n[2])


def same(a, b):
    return And(*[x == y for x, y in zip(a, b)])


def chunk_ok(g, c, nums):
    """class invariant of a stored chunk, covering region number nums"""
    s, cs, n = sizes(g)
    f = c.f
    cn = [f[f'num_{a}_cells_'] for a in 'xyz']
    cell = And(f['cell_initialized_'], Not(f['chunk_initialized_']), same([f[f'cell_{a}_size_'] for a in 'xyz'], s), same(cn, n), f['stride1_'] == n[1] * n[2], f['stride2_'] == n[2], f['data_'].len == n[0] * n[1] * n[2])
    whole = And(f['chunk_initialized_'], Not(f['cell_initialized_']), f['data_'].len == 1)
    return And(Or(cell, whole), same([f[f'chunk_{a}_size_'] for a in 'xyz'], cs), same([r[0] for r in f['region_'].f['base'].e], [ToReal(i) * z for i, z in zip(nums, cs)]))


def loc(c):
    a = c.arg(0)
    return [r[0] for r in a.e][:3] if hasattr(a, 'e') else [c.arg(0), c.arg(1), c.arg(2)]


def in_frame(g, v):
    I = g.f['inverse_origin_transform_'].e
    return [I[i][0] * v[0] + I[i][1] * v[1] + I[i][2] * v[2] + I[i][3] for i in range(3)]


def addr(n, k):
    return k[0] * (n[1] * n[2]) + k[1] * n[2] + k[2]


class Spec:
    """names for the region and cell of the location, and for the chunk stored there"""

    def __init__(self, E, g, v, st=None):
        self.E, self.g = E, g
        self.p, self.R, self.k = list(Reals('px py pz')), list(Ints('region_x region_y region_z')), list(Ints('cell_x cell_y cell_z'))
        self.m = g.f['chunks_']
        kt, self.vt = self.m.ty.args[0], self.m.ty.args[1]
        s, cs, n = sizes(g)
        if st is not None:
            st.assume(same(self.p, in_frame(g, v)))
            for p, R, k, a, b, m, t in zip(self.p, self.R, self.k, s, cs, n, 'xyz'):
                st.assume(R == ToInt(p / b), k == ToInt((p - ToReal(R) * b) / a))
        self.bases = [ToReal(r) * b for r, b in zip(self.R, cs)]
        base = [x for x in g.f['origin_transform_'].e][0][:1]
        self.key = E.S.pack(kt, key_value(E, kt, self.bases))
        self.there = Select(self.m.dom, self.key)
        self.c = E.S.unpack(self.vt, Select(self.m.val, self.key))

    def lemmas(self, st):
        E, g = self.E, self.g
        s, cs, n = sizes(g)
        for p, R, k, a, b, m, t in zip(self.p, self.R, self.k, s, cs, n, 'xyz'):
            H = And(a > 0, b == a * ToReal(m), b > 0, m > 0)
            E.lemma(st, f'{t}: region', Implies(H, And((p / b) * b == p, ToReal(R) * b <= (p / b) * b, (p / b) * b < (ToReal(R) + 1) * b)))
            E.lemma(st, f'{t}: region bounds', Implies(H, And(ToReal(R) * b <= p, (ToReal(R) + 1) * b == ToReal(R) * b + b, p < ToReal(R) * b + b)))
            u = p - ToReal(R) * b
            E.lemma(st, f'{t}: in region', Implies(H, And(u >= 0, u < b)))
            E.lemma(st, f'{t}: scaled', Implies(H, (u / a) * a == u))
            E.lemma(st, f'{t}: cell', Implies(H, And(u / a >= 0, u / a < ToReal(m))))
            E.lemma(st, f'{t}: cell in chunk', Implies(H, And(0 <= k, k < m, k == ToInt(u / a))))
        address(E, st, g, self.k, 'cell')

    def value(self, k):
        """value at cell k of the region, before"""
        g = self.g
        d = self.c.f['data_']
        n = sizes(g)[2]
        return If(self.there, If(self.c.f['cell_initialized_'], Select(d.arr, addr(n, k)), Select(d.arr, 0)), pack(self.E, g.f['default_value_']))


def address(E, st, g, k, t):
    n = sizes(g)[2]
    nx, ny, nz = n
    x, y, z = k
    H = And(grid(g), *[And(0 <= a, a < b) for a, b in zip(k, n)])
    E.lemma(st, f'{t}: one row fits', Implies(H, And(y * nz >= 0, y * nz + nz <= ny * nz)))
    E.lemma(st, f'{t}: one slab fits', Implies(H, And(x * (ny * nz) >= 0, x * (ny * nz) + ny * nz <= nx * (ny * nz))))
    E.lemma(st, f'{t}: storage size', nx * (ny * nz) == nx * ny * nz)
    E.lemma(st, f'{t}: address in storage', Implies(H, And(0 <= addr(n, k), addr(n, k) < nx * ny * nz)))


def distinct(E, st, g, p, r):
    n = sizes(g)[2]
    nx, ny, nz = n
    H = And(grid(g), *[And(0 <= a, a < b) for a, b in zip(p, n)], *[And(0 <= a, a < b) for a, b in zip(r, n)])
    u, v = p[0] * ny + p[1], r[0] * ny + r[1]
    for a, b, t in ((u, v, 'row'), (v, u, 'row, other way')):
        E.lemma(st, f'rows are disjoint ({t})', Implies(And(H, a < b), a * nz + nz <= b * nz))
    E.lemma(st, 'address by rows', And(addr(n, p) == u * nz + p[2], addr(n, r) == v * nz + r[2]))
    for a, b, t in ((p, r, ''), (r, p, ', other way')):
        E.lemma(st, f'slabs are disjoint{t}', Implies(And(H, a[0] < b[0]), a[0] * ny + ny <= b[0] * ny))
    E.lemma(st, 'one address, one cell', Implies(And(H, addr(n, p) == addr(n, r)), same(p, r)))


def key_value(E, kt, xs):
    v = E.havoc(State(), kt, 'key')
    b = v.f['base']
    b.e = [[x] for x in xs]
    return v


def pack(E, v):
    return E.S.pack(v.ty, v) if not is_expr(v) else v


def frame_members(g, h, *but):
    def eq(a, b):
        if hasattr(a, 'e'):
            return And(*[x == y for r, s in zip(a.e, b.e) for x, y in zip(r, s)])
        if hasattr(a, 'dom'):
            return And(a.dom == b.dom, a.val == b.val, a.size == b.size)
        if hasattr(a, 'f'):
            return And(*[eq(a.f[k], b.f[k]) for k in a.f])
        return a == b
    return And(*[eq(g.f[k], h.f[k]) for k in g.f if k not in but])


def tag(prog, f):
    return f['q'].split('::')[-1] + '(' + ', '.join(prog.ty(p['t']).s.split('::')[-1] for p in f['p']) + ')'


def start(write):
    def setup(E, c, st):
        S = Spec(E, c.this, loc(c), st)
        S.lemmas(st)
        if write:
            address(E, st, c.this, OTHER, 'another cell')
            distinct(E, st, c.this, S.k, OTHER)
    return setup


def pre(E):
    def f(c):
        S = Spec(E, c.this, loc(c))
        return [('grid', grid(c.this)), ('range', And(*[And(x / b < 2 ** 53, x / b > -2 ** 53) for x, b in zip(S.p, sizes(c.this)[1])])), ('the stored chunk', Implies(S.there, chunk_ok(c.this, S.c, S.R)))]
    return f


@C.unit('reads')
def _(prog):
    out = []
    for f in prog.find(q + 'GetImmutable') + prog.find(q + 'GetMutable'):
        E = Engine(prog)

        def post(c, E=E):
            S = Spec(E, c.this, loc(c))
            ref = c.ret.f['first']
            v = E.read(c.st1, ref) if hasattr(ref, 'acc') else ref
            want = If(S.there, If(S.c.f['cell_initialized_'], IntVal(IN_CELL), IntVal(IN_CHUNK)), IntVal(NF))
            return [('where it was found', c.ret.f['second'] == want), 
                    ('the default where nothing is stored', Implies(Not(S.there), pack(E, v) == S.value(S.k))),
                    ('the value of the cell', Implies(And(S.there, S.c.f['cell_initialized_']), pack(E, v) == S.value(S.k))),
                    ('the value of the chunk', Implies(And(S.there, Not(S.c.f['cell_initialized_'])), pack(E, v) == S.value(S.k))), ('nothing changes', frame_members(c.this, c.this1))]
        E.verify(f, name=tag(prog, f), setup=start(False), pre=pre(E), post=post)
        out.append(E)
    return out


def changed(E, c, S, now):
    """only the chunk of the region changes, and stays a legal chunk"""
    g, h = c.this, c.this1
    m, m1 = g.f['chunks_'], h.f['chunks_']
    k = Const('r', m.dom.sort().domain())
    return [('other members unchanged', frame_members(g, h, 'chunks_')), ('the chunk is stored', Select(m1.dom, S.key)), ('legal chunk', chunk_ok(g, now, S.R)),
            ('other regions unchanged', FA([k], Implies(k != S.key, And(Select(m1.dom, k) == Select(m.dom, k), Select(m1.val, k) == Select(m.val, k))), Select(m1.dom, k)))]


def writes(prog, nm):
    out = []
    for f in prog.find(q + nm):
        E = Engine(prog)
        n = len(f['p'])

        def post(c, E=E, n=n):
            S = Spec(E, c.this, loc(c))
            v = pack(E, c.arg(n - 1))
            now = E.S.unpack(S.vt, Select(c.this1.f['chunks_'].val, S.key))
            d = now.f['data_']
            cells = sizes(c.this)[2]
            o = [('accepted', c.ret == (IN_CELL if nm == 'SetCellValue' else IN_CHUNK))] + changed(E, c, S, now)
            if nm == 'SetCellValue':
                inside = And(*[And(0 <= a, a < b) for a, b in zip(OTHER, cells)])
                o += [('a chunk of cells', now.f['cell_initialized_']), ('the cell', Select(d.arr, addr(cells, S.k)) == v),
                      ('every other cell of the chunk keeps its value', Implies(And(inside, Not(same(OTHER, S.k))), Select(d.arr, addr(cells, OTHER)) == S.value(OTHER)))]
            else:
                o += [('one value for the chunk', And(now.f['chunk_initialized_'], Select(d.arr, 0) == v))]
            return o
        E.verify(f, name=tag(prog, f), setup=start(nm == 'SetCellValue'), pre=pre(E), post=post)
        out.append(E)
    return out


@C.unit('writes to a cell')
def _(prog):
    return writes(prog, 'SetCellValue')


@C.unit('writes to a chunk')
def _(prog):
    return writes(prog, 'SetChunkValue')


@C.unit('stored chunks')
def _(prog):
    out = []
    for nm in ('GetIndexLocationInGrid', 'GetElementSize'):
        f = prog.find(G_CHUNK + nm)[0]
        E = Engine(prog)

        def parts(c):
            g = c.this.f
            cell = g['cell_initialized_']
            n = [g[f'num_{a}_cells_'] for a in 'xyz']
            return g, cell, n, [g[f'cell_{a}_size_'] for a in 'xyz'], [g[f'chunk_{a}_size_'] for a in 'xyz']

        def pre(c, nm=nm):
            g, cell, n, s, cs = parts(c)
            i = [] if nm == 'GetElementSize' else [c.arg(k) for k in range(3)]
            return [('one kind', Xor(cell, g['chunk_initialized_'])), ('range', And(*[And(x < 2 ** 53, x > -2 ** 53) for x in i]))]

        def post(c, nm=nm):
            g, cell, n, s, cs = parts(c)
            r = c.ret
            if nm == 'GetElementSize':
                return [('size of a cell, or of the chunk', And(r.len == 3, *[Select(r.arr, k) == If(cell, s[k], cs[k]) for k in range(3)]))]
            i = [c.arg(k) for k in range(3)]
            ok = And(*[And(0 <= a, a < b) for a, b in zip(i, n)])
            base = [x[0] for x in g['region_'].f['base'].e]
            return [('nothing outside', Implies(Not(ok), r.len == 0)),
                    ('middle of the element', Implies(ok, And(r.len == 3, *[Select(r.arr, k) == base[k] + If(cell, s[k] * (ToReal(i[k]) + Q(1, 2)), cs[k] / 2) for k in range(3)])))]
        E.verify(f, name='Chunk::' + nm, pre=pre, post=post)
        out.append(E)
    return out


@C.unit('initialization')
def _(prog):
    out = []
    ctors = [f for f in prog.find(q + 'DynamicSpatialHashedVoxelGrid') if len(f['p']) > 1]
    for f in prog.find(q + 'Initialize') + ctors:
        ts = [prog.ty(p['t']).s for p in f['p']]
        k = 1 if 'Transform' in ts[0] else 0
        ns = ts.count('double')
        E = Engine(prog)

        def args(c, k=k, ns=ns):
            s = [c.arg(k + i) for i in range(ns)]
            return s if ns == 3 else s * 3, [c.arg(k + ns + i) for i in range(3)], c.arg(k + ns + 3)

        def legal(c, args=args):
            s, n, _ = args(c)
            return And(*[And(x > 0, x < INF) for x in s], *[x > 0 for x in n])

        def pre(c, args=args):
            s, n, _ = args(c)
            return [('counts', Implies(And(*[x > 0 for x in n]), And(n[1] * n[2] < 2 ** 53, n[0] * (n[1] * n[2]) < 2 ** 53, n[0] * n[1] * n[2] < 2 ** 53, n[0] * n[1] < 2 ** 53, *[x < 2 ** 53 for x in n], *[a * ToReal(b) < INF for a, b in zip(s, n)])))]

        def post(c, E=E, args=args, k=k, legal=legal):
            s, n, dv = args(c)
            g = c.this1
            T, I = g.f['origin_transform_'].e, g.f['inverse_origin_transform_'].e
            r = Const('r', g.f['chunks_'].dom.sort().domain())
            return [('sizes are positive and finite', legal(c)), ('grid', grid(g)), ('cell sizes', same(sizes(g)[0], s)), ('cell counts', same(sizes(g)[2], n)), ('default value', pack(E, g.f['default_value_']) == pack(E, dv)),
                    ('no chunks', FA([r], Not(Select(g.f['chunks_'].dom, r)), Select(g.f['chunks_'].dom, r))),
                    ('origin', And(*[T[i][j] == (c.arg(0).e[i][j] if k else RealVal(1 if i == j else 0)) for i in range(3) for j in range(4)])),
                    ('inverse transform', And(*[I[i][j] == T[j][i] for i in range(3) for j in range(3)], *[I[i][3] == -(T[0][i] * T[0][3] + T[1][i] * T[1][3] + T[2][i] * T[2][3]) for i in range(3)]))]
        E.verify(f, name=tag(prog, f), pre=pre, throws=lambda c, legal=legal: Not(legal(c)), post=post)
        out.append(E)
    return out


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c14.cpp')):
    C.cpp('c14.cpp')
if __name__ == '__main__':
    run(C)
