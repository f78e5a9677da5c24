import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State
from codec import Codec, serializer, deserializer, pre_kept
import lib


def tu(net):
    N = 'Network' if net else ''
    return '''#include <string>
#include "/repo/include/arc_utilities/serialization.hpp"
struct Thing { int id; }; struct Other { int id; };
inline void use() { using namespace arc_utilities; std::vector<uint8_t> b; uint8_t u8 = 0; uint16_t u16 = 0; uint32_t u32 = 0; uint64_t u64 = 0; int8_t i8 = 0; int16_t i16 = 0; int32_t i32 = 0; int64_t i64 = 0; float f = 0; double d = 0;
SerializeNFixedSizePOD(u8, b); SerializeNFixedSizePOD(u16, b); SerializeNFixedSizePOD(u32, b); SerializeNFixedSizePOD(u64, b); SerializeNFixedSizePOD(i8, b); SerializeNFixedSizePOD(i16, b);
SerializeNFixedSizePOD(i32, b); SerializeNFixedSizePOD(i64, b); SerializeNFixedSizePOD(f, b); SerializeNFixedSizePOD(d, b);
DeserializeNFixedSizePOD<uint8_t>(b, 0); DeserializeNFixedSizePOD<uint16_t>(b, 0); DeserializeNFixedSizePOD<uint32_t>(b, 0); DeserializeNFixedSizePOD<uint64_t>(b, 0);
DeserializeNFixedSizePOD<int8_t>(b, 0); DeserializeNFixedSizePOD<int16_t>(b, 0); DeserializeNFixedSizePOD<int32_t>(b, 0); DeserializeNFixedSizePOD<int64_t>(b, 0); DeserializeNFixedSizePOD<float>(b, 0); DeserializeNFixedSizePOD<double>(b, 0);
std::vector<Thing> v; std::function<uint64_t(const Thing&, std::vector<uint8_t>&)> s; std::function<std::pair<Thing, uint64_t>(const std::vector<uint8_t>&, const uint64_t)> ds;
std::function<uint64_t(const Other&, std::vector<uint8_t>&)> os; std::function<std::pair<Other, uint64_t>(const std::vector<uint8_t>&, const uint64_t)> od;
std::function<uint64_t(const int&, std::vector<uint8_t>&)> ks; std::function<std::pair<int, uint64_t>(const std::vector<uint8_t>&, const uint64_t)> kd;
SerializeNVector(v, b, s); DeserializeNVector<Thing>(b, 0, ds); XX
std::map<int, Thing> m; SerializeNMap(m, b, ks, s); DeserializeNMap<int, Thing>(b, 0, kd, ds);
std::pair<Other, Thing> p; SerializeNPair(p, b, os, s); DeserializeNPair<Other, Thing>(b, 0, od, ds);
std::basic_string<YY> str; SerializeNString(str, b); DeserializeNString<YY>(b, 0);
}
'''.replace('SerializeN', 'Serialize' + N).replace('DeserializeN', 'Deserialize' + N).replace('DeSerialize', 'Deserialize').replace('XX', '' if net else 'SerializeVectorLike<Thing>(v, b, s); DeserializeVectorLike<Thing>(b, 0, ds);').replace('YY', 'int8_t' if net else 'char')


def build(net):
    pid = 'C03' if net else 'C02'
    N = 'Network' if net else ''
    C = Check(pid, tus=dict(main=tu(net)), proof_scope='fixed-size types (all ten integer and floating types), strings, pairs, vectors and maps of any size, over any item serializer that meets its contract',
              assumptions=['an item serializer appends at least one byte, its encoding depends on the item only, and the item deserializer inverts it and reports its size (the contract of both, proved here for the fixed-size types)',
                           'the host is little endian' if net else 'object representations of scalars are what memcpy copies', 'encoded data stays below 2^60 bytes'])
    q = 'arc_utilities::'
    PODS = ['uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'float', 'double']
    i, j, k = Ints('i j k')

    def bytes_at(E, t, arr, at, x):
        """the bytes of x, in this format, from position at"""
        f, g = lib.rep_fn(E, t)
        n = lib.pod_size(t)
        return And(*[Select(arr, at + r) == f(IntVal(n - 1 - r if net else r), x) for r in range(n)])

    def appended(E, c, b, n):
        old, new = c.arg(b), c.fin(b)
        return [('what was in the buffer stays', pre_kept(old.arr, new.arr, old.len)), ('size of the buffer', new.len == old.len + n), ('bytes written are reported', c.ret == n)]

    @C.unit('fixed-size types')
    def _(prog):
        out = []
        for f in prog.find(q + f'Serialize{N}FixedSizePOD'):
            t = prog.ty(f['p'][0]['t']).deref()
            E = Engine(prog)
            n = lib.pod_size(t)
            E.verify(f, name=f'Serialize{N}FixedSizePOD<{t.s}>', pre=lambda c: [('size', c.arg(1).len < 2 ** 50)],
                     post=lambda c: appended(E, c, 1, n) + [('bytes', bytes_at(E, t, c.fin(1).arr, c.arg(1).len, c.arg(0)))])
            out.append(E)
        for f in prog.find(q + f'Deserialize{N}FixedSizePOD'):
            t = dict(prog.ty(f['r']).deref().fields())['first']
            E = Engine(prog)
            n = lib.pod_size(t)
            x = E.havoc(State(), t, 'x')
            E.verify(f, name=f'Deserialize{N}FixedSizePOD<{t.s}>',
                     pre=lambda c: [('an encoded value', And(bytes_at(E, t, c.arg(0).arr, c.arg(1), x), c.arg(1) + n <= c.arg(0).len)), ('range', E.range_fact(t, x) if E.range_fact(t, x) is not None else BoolVal(True))],
                     post=lambda c: [('the value', c.ret.f['first'] == x), ('bytes read', c.ret.f['second'] == n)])
            out.append(E)
        if len(out) < 20:
            raise Undecided('instances of the fixed-size functions')
        return out

    def header(E, prog, arr, at, n):
        u64 = next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'int' and prog.types[x].get('w') == 64 and not prog.ty(x).sg)
        return bytes_at(E, u64, arr, at, n)

    def item_of(E, v, x):
        return Select(v.arr, x)

    def seq_ser(prog, fn, string=False):
        f = prog.fn(q + fn)
        E = Engine(prog)
        vt = prog.ty(f['p'][0]['t']).deref()
        et = vt.args[0]
        if string:
            w = lib.pod_size(et)
            size = lambda x: IntVal(w)
            at = lambda a, o, x: bytes_at(E, et, a, o, x)
            codecs = []
        else:
            cd = Codec(E, 'item', et)
            size, at, codecs = cd.size, cd.enc, [cd]
        off = Function('offset', ArraySort(IntSort(), E.S.sort(et)), IntSort(), IntSort())
        if string:
            off = lambda a, x: 8 + w * x

        def setup(E, c, st):
            E.entry0 = st.copy()
            v = c.arg(0)
            st.assume(*[] if string else [off(v.arr, 0) == 8, FA([i], off(v.arr, i + 1) == off(v.arr, i) + size(item_of(E, v, i)), item_of(E, v, i))])
            if not string:
                st.assume(*cd.facts())
                c.arg(2).hook = serializer(cd, codecs)

        def state(v, old, new, n):
            o = off(v.arr, i)
            return [('prefix', pre_kept(old.arr, new.arr, old.len)), ('size', new.len == old.len + off(v.arr, n)), ('header', header(E, prog, new.arr, old.len, v.len)), ('offset', off(v.arr, n) >= 8),
                    ('items', FA([i], Implies(And(0 <= i, i < n), And(at(new.arr, old.len + o, item_of(E, v, i)), old.len + off(v.arr, i + 1) <= new.len, o >= 8)), item_of(E, v, i)))]

        def inv(L):
            old = E.read(E.entry0, E.top_args[1])
            n = L['idx']
            return [('index', And(0 <= n, n <= L.argv(0).len))] + state(L.argv(0), old, L.argv(1), n)

        def on_enter(L):
            pass
        E.verify(f, setup=setup, pre=lambda c: [('size', And(c.arg(1).len < 2 ** 50))], loops=[Loop(inv, decreases=lambda L: L.argv(0).len - L['idx'])],
                 post=lambda c: appended(E, c, 1, off(c.arg(0).arr, c.arg(0).len)) + state(c.arg(0), c.arg(1), c.fin(1), c.arg(0).len))
        return E

    def seq_des(prog, fn, string=False):
        f = prog.fn(q + fn)
        E = Engine(prog)
        vt = dict(prog.ty(f['r']).deref().fields())['first']
        et = vt.args[0]
        if string:
            w = lib.pod_size(et)
            size = lambda x: IntVal(w)
            at = lambda a, o, x: bytes_at(E, et, a, o, x)
        else:
            cd = Codec(E, 'item', et)
            size, at = cd.size, cd.enc
        off = Function('offset', ArraySort(IntSort(), E.S.sort(et)), IntSort(), IntSort())
        if string:
            off = lambda a, x: 8 + w * x
        st0 = State()
        v = E.havoc(st0, vt, 'original')
        nums = Const('u', E.S.sort(et))

        def setup(E, c, st):
            st.assume(*st0.pc)
            st.assume(*[] if string else [off(v.arr, 0) == 8, FA([i], off(v.arr, i + 1) == off(v.arr, i) + size(item_of(E, v, i)), item_of(E, v, i))])
            if string:
                st.assume(FA([i], E.range_fact(et, item_of(E, v, i)), item_of(E, v, i)))
            if not string:
                st.assume(*cd.facts())
                c.arg(2).hook = deserializer(cd, et)

        def pre(c):
            b, cur = c.arg(0), c.arg(1)
            return [('the encoding of a sequence', And(header(E, prog, b.arr, cur, v.len), cur + 8 <= b.len, v.len < 2 ** 56,
                                                      FA([i], Implies(And(0 <= i, i < v.len), And(at(b.arr, cur + off(v.arr, i), item_of(E, v, i)), cur + off(v.arr, i + 1) <= b.len, off(v.arr, i) >= 8)), item_of(E, v, i))))]

        def same(r, n):
            return And(r.len == n, FA([i], Implies(And(0 <= i, i < n), Select(r.arr, i) == item_of(E, v, i)), Select(r.arr, i)))

        def inv(L):
            n = L['idx']
            x = item_of(E, v, n)
            return [('index', And(0 <= n, n <= v.len)), ('position', And(L['current_position'] == L.argv(1) + off(v.arr, n), Or(n == v.len, size(x) >= 1))), ('items so far', same(L['deserialized'], n))]
        E.verify(f, setup=setup, pre=pre, loops=[Loop(inv, decreases=lambda L: v.len - L['idx'])],
                 post=lambda c: [('the sequence', same(c.ret.f['first'], v.len)), ('bytes read', c.ret.f['second'] == off(v.arr, v.len))])
        return E

    @C.unit('sequences')
    def _(prog):
        return [seq_ser(prog, f'Serialize{N}Vector'), seq_des(prog, f'Deserialize{N}Vector')] + ([] if net else [seq_ser(prog, 'SerializeVectorLike'), seq_des(prog, 'DeserializeVectorLike')])

    @C.unit('strings')
    def _(prog):
        return [seq_ser(prog, f'Serialize{N}String', True), seq_des(prog, f'Deserialize{N}String', True)]

    @C.unit('pairs')
    def _(prog):
        f = [x for x in prog.find(q + f'Serialize{N}Pair') if 'Other' in prog.ty(x['p'][0]['t']).deref().s][0]
        E = Engine(prog)
        fs = dict(prog.ty(f['p'][0]['t']).deref().fields())
        a, b = Codec(E, 'first', fs['first']), Codec(E, 'second', fs['second'])
        pk = lambda E, cd, v: E.S.pack(cd.ty, v)

        def setup(E, c, st):
            st.assume(*a.facts(), *b.facts())
            c.arg(2).hook, c.arg(3).hook = serializer(a, [a, b]), serializer(b, [a, b])

        def post(c):
            x, y = pk(E, a, c.arg(0).f['first']), pk(E, b, c.arg(0).f['second'])
            o = c.arg(1).len
            return appended(E, c, 1, a.size(x) + b.size(y)) + [('first', a.enc(c.fin(1).arr, o, x)), ('second', b.enc(c.fin(1).arr, o + a.size(x), y))]
        E.verify(f, setup=setup, pre=lambda c: [('size', And(c.arg(1).len < 2 ** 50))], post=post)
        g = [x for x in prog.find(q + f'Deserialize{N}Pair') if 'Other' in prog.ty(x['r']).deref().s][0]
        E2 = Engine(prog)
        a2, b2 = Codec(E2, 'first', fs['first']), Codec(E2, 'second', fs['second'])
        x, y = Const('x0', a2.sort), Const('y0', b2.sort)

        def setup2(E, c, st):
            st.assume(*a2.facts(), *b2.facts())
            c.arg(2).hook, c.arg(3).hook = deserializer(a2, None), deserializer(b2, None)

        def pre2(c):
            o = c.arg(1)
            return [('the encoding of a pair', And(a2.enc(c.arg(0).arr, o, x), b2.enc(c.arg(0).arr, o + a2.size(x), y), a2.size(x) >= 1, b2.size(y) >= 1, o + a2.size(x) + b2.size(y) <= c.arg(0).len))]
        E2.verify(g, setup=setup2, pre=pre2, post=lambda c: [('the pair', And(pk(E2, a2, c.ret.f['first'].f['first']) == x, pk(E2, b2, c.ret.f['first'].f['second']) == y)),
                                                            ('bytes read', c.ret.f['second'] == a2.size(x) + b2.size(y))])
        return [E, E2]

    @C.unit('maps')
    def _(prog):
        f = prog.fn(q + f'Serialize{N}Map')
        E = Engine(prog)
        mt = prog.ty(f['p'][0]['t']).deref()
        a, b = Codec(E, 'key', mt.args[0]), Codec(E, 'value', mt.args[1])
        off = Function('offset', a_sort(E, mt), ArraySort(IntSort(), IntSort()), IntSort(), IntSort())

        def key(o, x):
            return Select(o, x)

        def offsets(m, o):
            t = lambda x: off(m.val, o, x)
            return [t(0) == 8, FA([i], t(i + 1) == t(i) + a.size(key(o, i)) + b.size(Select(m.val, key(o, i))), key(o, i))]

        def setup(E, c, st):
            E.entry0 = st.copy()
            m = c.arg(0)
            E.ord = E.map_order(st, m)[0]
            st.assume(*a.facts(), *b.facts(), *offsets(m, E.ord))
            c.arg(2).hook, c.arg(3).hook = serializer(a, [a, b]), serializer(b, [a, b])

        def state(m, o, old, new, n):
            t = lambda x: off(m.val, o, x)
            kk = key(o, i)
            return [('prefix', pre_kept(old.arr, new.arr, old.len)), ('size', new.len == old.len + t(n)), ('header', header(E, prog, new.arr, old.len, m.size)), ('offset', t(n) >= 8),
                    ('items', FA([i], Implies(And(0 <= i, i < n), And(a.enc(new.arr, old.len + t(i), kk), b.enc(new.arr, old.len + t(i) + a.size(kk), Select(m.val, kk)), old.len + t(i + 1) <= new.len, t(i) >= 8)), kk))]

        def inv(L):
            m, n = L.argv(0), L['itr'].idx
            return [('index', And(0 <= n, n <= m.size))] + state(m, E.ord, E.read(E.entry0, E.top_args[1]), L.argv(1), n)
        E.verify(f, setup=setup, pre=lambda c: [('size', And(c.arg(1).len < 2 ** 50))], loops=[Loop(inv, decreases=lambda L: L.argv(0).size - L['itr'].idx)],
                 post=lambda c: appended(E, c, 1, off(c.arg(0).val, E.ord, c.arg(0).size)) + state(c.arg(0), E.ord, c.arg(1), c.fin(1), c.arg(0).size))

        g = prog.fn(q + f'Deserialize{N}Map')
        E2 = Engine(prog)
        a, b = Codec(E2, 'key', mt.args[0]), Codec(E2, 'value', mt.args[1])
        st0 = State()
        m = E2.havoc(st0, mt, 'original')
        od, rk = E2.map_order(st0, m)
        o = od
        t = lambda x: off(m.val, o, x)

        def setup2(E, c, st):
            st.assume(*st0.pc, *a.facts(), *b.facts(), *[FA([i], t(i + 1) == t(i) + a.size(key(o, i)) + b.size(Select(m.val, key(o, i))), key(o, i)), t(0) == 8])
            c.arg(2).hook, c.arg(3).hook = deserializer(a, None), deserializer(b, None)

        def pre2(c):
            kk = key(o, i)
            bf, cur = c.arg(0), c.arg(1)
            return [('the encoding of a map', And(header(E2, prog, bf.arr, cur, m.size), cur + 8 <= bf.len, m.size < 2 ** 56,
                     FA([i], Implies(And(0 <= i, i < m.size), And(a.enc(bf.arr, cur + t(i), kk), b.enc(bf.arr, cur + t(i) + a.size(kk), Select(m.val, kk)), a.size(kk) >= 1, b.size(Select(m.val, kk)) >= 1,
                                                                 cur + t(i + 1) <= bf.len, t(i) >= 8)), kk)))]

        def same(r, n):
            x = Int('key')
            return And(r.size == n, FA([x], And(Select(r.dom, x) == And(Select(m.dom, x), rk(m.dom, x) < n), Implies(Select(r.dom, x), Select(r.val, x) == Select(m.val, x))), Select(r.dom, x)))

        def inv2(L):
            n = L['idx']
            kk = key(o, n)
            return [('index', And(0 <= n, n <= m.size)), ('position', And(L['current_position'] == L.argv(1) + t(n), Implies(n < m.size, And(Select(m.dom, kk), rk(m.dom, kk) == n)))), ('items so far', same(L['deserialized'], n))]

        def post2(c):
            x = Int('key')
            r = c.ret.f['first']
            return [('the map', And(r.size == m.size, FA([x], And(Select(r.dom, x) == Select(m.dom, x), Implies(Select(m.dom, x), Select(r.val, x) == Select(m.val, x))), Select(r.dom, x)))), ('bytes read', c.ret.f['second'] == t(m.size))]
        E2.verify(g, setup=setup2, pre=pre2, post=post2, loops=[Loop(inv2, decreases=lambda L: m.size - L['idx'])])
        return [E, E2]

    h = 'c03.cpp' if net else 'c02.cpp'
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', h)):
        C.cpp(h, secs=(8, 60))
    return C


def a_sort(E, mt):
    return ArraySort(E.S.sort(mt.args[0]), E.S.sort(mt.args[1]))


C = build(False)
if __name__ == '__main__':
    run(C)
