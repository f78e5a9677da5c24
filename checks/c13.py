import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State
from codec import Codec, serializer, deserializer, pre_kept, AI
import lib

TU = '''#include <string>
#include "/repo/include/arc_utilities/voxel_grid.hpp"
struct Thing { int id; };
inline void use() {
  typedef VoxelGrid::VoxelGrid<Thing> G; G g; std::vector<uint8_t> b;
  std::function<uint64_t(const Thing&, std::vector<uint8_t>&)> s; std::function<std::pair<Thing, uint64_t>(const std::vector<uint8_t>&, const uint64_t)> d;
  g.SerializeSelf(b, s); g.DeserializeSelf(b, 0, d); G::Serialize(g, b, s); G::Deserialize(b, 0, d);
}
'''
C = Check('C13', tus=dict(main=TU), proof_scope='every grid (initialized or not), every cell type whose serializer meets its contract, every position in a buffer',
          assumptions=['contracts of SerializeFixedSizePOD, SerializeVectorLike and their inverses (proved in C02) and of SerializeEigen<Isometry3d> and its inverse (proved in C38)',
                       'an item serializer appends at least one byte, its encoding depends on the item only, and the item deserializer inverts it and reports its size', 'encoded data stays below 2^60 bytes',
                       'a virtual member function is the grid class\'s own (no overriding subclass exists in the repository)'])
q = 'VoxelGrid::VoxelGrid::'
FIELDS = (['initialized_', 'origin_transform_', 'inverse_origin_transform_', 'data_'] + [f'cell_{a}_size_' for a in 'xyz'] + [f'inv_cell_{a}_size_' for a in 'xyz'] + [f'{a}_size_' for a in 'xyz']
          + ['stride1_', 'stride2_'] + [f'num_{a}_cells_' for a in 'xyz'] + ['default_value_', 'oob_value_'])


class Plain:
    """encoding of a value whose parts are z3 terms"""

    def __init__(self, name, sorts, n=None):
        self.name, self.n, self.sorts = name, n, sorts
        self.enc_f = Function('spells_' + name, AI, IntSort(), *sorts, BoolSort())
        self.size_f = Function('size_' + name, *sorts, IntSort()) if n is None else None

    def parts(self, v):
        return [x for r in v.e for x in r] if hasattr(v, 'e') else [v.len, v.arr] if hasattr(v, 'arr') else [v]

    def enc(self, a, at, v):
        return self.enc_f(a, at, *self.parts(v))

    def size(self, v):
        return IntVal(self.n) if self.n is not None else self.size_f(*self.parts(v))

    def kept(self, old, new, n):
        at = Int('cat')
        xs = [Const(f'cx{i}', s) for i, s in enumerate(self.sorts)]
        size = IntVal(self.n) if self.n is not None else self.size_f(*xs)
        return FA([at] + xs, Implies(And(self.enc_f(old, at, *xs), 0 <= at, at + size <= n), self.enc_f(new, at, *xs)), self.enc_f(old, at, *xs))


def codecs(E, prog, thing):
    R, I = RealSort(), IntSort()
    cs = dict(u8=Plain('u8', [I], 1), f64=Plain('f64', [R], 8), i64=Plain('i64', [I], 8), iso=Plain('iso', [R] * 16, 128), data=Plain('data', [I, ArraySort(I, E.S.sort(thing))]))
    cs['item'] = Codec(E, 'item', thing)
    return cs


def layout(E, cs, g):
    """(name, codec, value) of each part of a serialized grid, in order"""
    kind = lambda n: 'u8' if n == 'initialized_' else 'iso' if 'transform' in n else 'data' if n == 'data_' else 'item' if n in ('default_value_', 'oob_value_') else 'i64' if n[:3] in ('str', 'num') else 'f64'
    out = []
    for n in FIELDS:
        v = g.f[n]
        k = kind(n)
        if k == 'u8':
            v = If(v, IntVal(1), IntVal(0))
        if k == 'item':
            v = E.S.pack(cs['item'].ty, v) if not is_expr(v) else v
        out.append((n, cs[k], v))
    return out


def spelled(lay, arr, at):
    """the bytes from `at` spell the layout; also the end position"""
    out, pos = [], at
    for n, c, v in lay:
        out.append((n, c.enc(arr, pos, v)))
        pos = pos + c.size(v)
    return out, pos


class Frame:
    """an encoding depends on its own bytes only: ground instances for the values serialized so far"""

    def __init__(self, done):
        self.done = done

    def kept(self, old, new, n):
        return And(*[Implies(And(c.enc(old, at, v), 0 <= at, at + c.size(v) <= n), c.enc(new, at, v)) for c, at, v in self.done])


def ser_contract(E, cd, cs, arg=0, buf=1):
    def post(c):
        old, new = c.arg(buf), c.fin(buf)
        v = c.arg(arg)
        n = cd.size(v)
        frame = Frame(cd.E13).kept(old.arr, new.arr, old.len)
        cd.E13.append((cd, old.len, v))
        return [('prefix', pre_kept(old.arr, new.arr, old.len)), ('encoding', cd.enc(new.arr, old.len, v)), ('size', And(n >= 1, n < 2 ** 56, new.len == old.len + n, new.len < 2 ** 60)), ('bytes', c.ret == n)] + [('frame', frame)]
    return Contract(post=post, modifies=lambda c: [c._args[buf]])


def pod_kind(prog, t):
    s = t.deref()
    return {'unsigned char': 'u8', 'double': 'f64', 'long': 'i64'}.get(s.s)


def thing_type(prog):
    return next(prog.ty(i) for i in range(len(prog.types)) if prog.ty(i).s == 'Thing')


def ser_engine(prog):
    E = Engine(prog)
    cs = codecs(E, prog, thing_type(prog))
    done = []
    for x in cs.values():
        x.E13 = done
    A = 'arc_utilities::'
    for f in prog.find(A + 'SerializeFixedSizePOD'):
        k = pod_kind(prog, prog.ty(f['p'][0]['t']))
        if k is None:
            continue
        E.contracts[f['id']] = ser_contract(E, cs[k], cs)
    for f in prog.find(A + 'SerializeEigen'):
        E.contracts[f['id']] = ser_contract(E, cs['iso'], cs)
    for f in prog.find(A + 'SerializeVectorLike'):
        E.contracts[f['id']] = ser_contract(E, cs['data'], cs)
    return E, cs


@C.unit('serialization')
def _(prog):
    out = []
    for nm, gi, bi, si in (('SerializeSelf', None, 0, 1), ('Serialize', 0, 1, 2)):
        f = prog.find(q + nm)[0]
        E, cs = ser_engine(prog)

        def setup(E, c, st, cs=cs, si=si):
            st.assume(*cs['item'].facts())
            it, done = cs['item'], cs['item'].E13
            h = serializer(it, [Frame(done)])

            def hook(E, st, args, e):
                at = E.read(st, args[1]).len
                v = E.S.pack(it.ty, E.rv(st, args[0]))
                r = h(E, st, args, e)
                done.append((it, at, v))
                return r
            c.arg(si).hook = hook

        def post(c, E=E, cs=cs, gi=gi, bi=bi):
            g = c.this if gi is None else c.arg(gi)
            old, new = c.arg(bi), c.fin(bi)
            parts, end = spelled(layout(E, cs, g), new.arr, old.len)
            return [('what was in the buffer stays', pre_kept(old.arr, new.arr, old.len))] + [('part ' + n, x) for n, x in parts] + [('size', new.len == end), ('bytes written are reported', c.ret == end - old.len)]
        E.verify(f, name=nm, setup=setup, pre=lambda c, bi=bi: [('size', c.arg(bi).len < 2 ** 50)], post=post)
        out.append(E)
    return out


@C.unit('deserialization')
def _(prog):
    out = []
    thing = thing_type(prog)
    for nm in ('DeserializeSelf', 'Deserialize'):
        f = prog.find(q + nm)[0]
        E = Engine(prog)
        cs = codecs(E, prog, thing)
        st0 = State()
        gt = dict(prog.ty(prog.find(q + 'Deserialize')[0]['r']).deref().fields())['first']
        G = E.havoc(st0, gt, 'original')
        lay = layout(E, cs, G)
        A = 'arc_utilities::'
        # the ghost argument of a deserializer's contract is the value spelled at that position
        def contract(kind, E=E, cs=cs, lay=lay):
            cd = cs[kind]

            def where(c):
                """the parts of this kind, with their positions"""
                at = E.at0
                for n, d, v in lay:
                    if d is cd:
                        yield at, v
                    at = at + d.size(v)

            def pre(c):
                return [('a value was serialized here', Or(*[And(c.arg(1) == at, cd.enc(c.arg(0).arr, at, v), at + cd.size(v) <= c.arg(0).len) for at, v in where(c)]))]

            def eq(r, v):
                if hasattr(v, 'e'):
                    return And(*[x == y for a, b in zip(r.e, v.e) for x, y in zip(a, b)])
                if hasattr(v, 'arr'):
                    i = Int('i')
                    return And(r.len == v.len, FA([i], Implies(And(0 <= i, i < v.len), Select(r.arr, i) == Select(v.arr, i)), Select(r.arr, i)))
                return r == v

            def post(c):
                return [('the value', Implies(c.arg(1) == at, And(eq(c.ret.f['first'], v), c.ret.f['second'] == cd.size(v)))) for at, v in where(c)]
            return Contract(pre=pre, post=post, modifies=lambda c: [])
        for g in prog.find(A + 'DeserializeFixedSizePOD'):
            k = pod_kind(prog, dict(prog.ty(g['r']).deref().fields())['first'])
            if k is None:
                continue
            E.contracts[g['id']] = contract(k)
        for g in prog.find(A + 'DeserializeEigen'):
            if 'Transform' in prog.ty(g['r']).deref().s:
                E.contracts[g['id']] = contract('iso')
        for g in prog.find(A + 'DeserializeVectorLike'):
            E.contracts[g['id']] = contract('data')
        for a in prog.find('arc_helpers::RequireAlignment'):
            E.contracts[a['id']] = Contract(modifies=lambda c: [])

        def setup(E, c, st, cs=cs, st0=st0):
            st.assume(*st0.pc, *cs['item'].facts())
            E.at0 = c.arg(1)
            c.arg(2).hook = deserializer(cs['item'], None)

        def pre(c, E=E, cs=cs, lay=lay):
            b, cur = c.arg(0), c.arg(1)
            parts, end = spelled(lay, b.arr, cur)
            return [('a serialized grid', And(*[x for _, x in parts], end <= b.len, cur >= 0, b.len < 2 ** 60, *[c2.size(v) >= 1 for _, c2, v in lay]))]

        def post(c, E=E, cs=cs, lay=lay, nm=nm):
            g = c.this1 if nm == 'DeserializeSelf' else c.ret.f['first']
            n = c.ret if nm == 'DeserializeSelf' else c.ret.f['second']
            o = []
            for (name, d, v), (_, _, w) in zip(lay, layout(E, cs, g)):
                if hasattr(v, 'e'):
                    x = And(*[x == y for a, b in zip(w.e, v.e) for x, y in zip(a, b)])
                elif hasattr(v, 'arr'):
                    i = Int('i')
                    x = And(w.len == v.len, FA([i], Implies(And(0 <= i, i < v.len), Select(w.arr, i) == Select(v.arr, i)), Select(w.arr, i)))
                else:
                    x = w == v
                o.append((name + ' restored', x))
            return o + [('bytes read are reported', n == spelled(lay, c.arg(0).arr, c.arg(1))[1] - c.arg(1))]
        E.verify(f, name=nm, setup=setup, pre=pre, post=post)
        out.append(E)
    return out


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c13.cpp')):
    C.cpp('c13.cpp')
if __name__ == '__main__':
    run(C)
