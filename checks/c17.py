import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA

TU = '''#include "/repo/include/arc_utilities/arc_helpers.hpp"
#include "/repo/include/arc_utilities/stl_wrappers.hpp"
inline void use() {
''' + ''.join(f'arc_helpers::SetBit<{t}>(0, 0, true); arc_helpers::GetBit<{t}>(0, 0);\n' for t in ('uint8_t', 'uint16_t', 'uint32_t', 'uint64_t')) + ''.join(
    f'{{ {t} a = 0, b = 0, c = 0, d = 0; arc_helpers::ClampValue<{t}>(a, b, c); arc_helpers::SpreadValue<{t}>(a, b, c, d);\n'
    f'arc_helpers::ClampValueAndWarn<{t}>(a, b, c); arc_helpers::SpreadValueAndWarn<{t}>(a, b, c, d); }}\n' for t in ('double', 'int')) + '''
std::map<int, double> m; std::unordered_map<int, double> u; std::vector<int> ks; std::vector<double> vs;
arc_helpers::RetrieveOrDefault(m, 1, 2.0); arc_helpers::RetrieveOrDefault(u, 1, 2.0);
arc_helpers::GetKeys(m); arc_helpers::MakeFromKeysAndValues<int, double>(ks, vs);
arc_std::find(ks, 3);
}
'''

C = Check('C17', tus=dict(main=TU),
          proof_scope='SetBit and GetBit for the four unsigned types (bit vectors); clamp and spread for int and double; map lookup and conversion for '
                      'int keys; arc_std::find for int')


def pick(w):
    return lambda P, f: P.ty(f['p'][0]['t']).deref().w == w


def bit(v, i):
    w = v.size()
    j = i if w == 32 else Extract(w - 1, 0, i) if w < 32 else ZeroExt(w - 32, i)
    return Extract(0, 0, LShR(v, j)) == 1


@C.unit('SetBit')
def _(prog):
    Es = []
    for w in (8, 16, 32, 64):
        E = Engine(prog, ints='bv')

        def post(c):
            v, i, b, r = c.arg(0), c.arg(1), c.arg(2), c.ret
            j = BitVec('j', 32)
            return [('the bit has the requested value', bit(r, i) == b),
                    ('every other bit is unchanged', ForAll([j], Implies(And(ULT(j, w), j != i), bit(r, j) == bit(v, j))))]
        E.verify(prog.fn('arc_helpers::SetBit', pick(w)), name=f'arc_helpers::SetBit<uint{w}_t>', pre=lambda c: [('position', ULT(c.arg(1), w))], post=post)
        Es.append(E)
    return Es


@C.unit('GetBit')
def _(prog):
    Es = []
    for w in (8, 16, 32, 64):
        E = Engine(prog, ints='bv')
        E.verify(prog.fn('arc_helpers::GetBit', pick(w)), name=f'arc_helpers::GetBit<uint{w}_t>', pre=lambda c: [('position', ULT(c.arg(1), w))],
                 post=lambda c: [('reads the bit', c.ret == bit(c.arg(0), c.arg(1)))])
        Es.append(E)
    return Es


@C.unit('clamp and spread')
def _(prog):
    E = Engine(prog)
    for t in ('double', 'int'):
        sel = lambda P, f: P.ty(f['p'][0]['t']).deref().s.replace('const ', '') == t
        for n in ('ClampValue', 'ClampValueAndWarn'):
            E.verify(prog.fn('arc_helpers::' + n, sel), name=f'arc_helpers::{n}<{t}>', pre=lambda c: [('ordered', c.arg(1) <= c.arg(2))],
                     post=lambda c: [('clamped', c.ret == If(c.arg(0) < c.arg(1), c.arg(1), If(c.arg(0) > c.arg(2), c.arg(2), c.arg(0))))])
        for n in ('SpreadValue', 'SpreadValueAndWarn'):
            def post(c):
                v, lo, mid, hi = [c.arg(i) for i in range(4)]
                return [('spread', c.ret == If(And(v > lo, v < mid), lo, If(And(v >= mid, v < hi), hi, v)))]
            E.verify(prog.fn('arc_helpers::' + n, sel), name=f'arc_helpers::{n}<{t}>',
                     pre=lambda c: [('ordered', And(c.arg(1) <= c.arg(2), c.arg(2) <= c.arg(3)))], post=post)
    return E


@C.unit('RetrieveOrDefault')
def _(prog):
    E = Engine(prog)
    for kind in ('std::map', 'std::unordered_map'):
        E.verify(prog.fn('arc_helpers::RetrieveOrDefault', lambda P, f: P.ty(f['p'][0]['t']).deref().n == kind), name=f'RetrieveOrDefault({kind})',
                 post=lambda c: [('stored value or default', c.ret == If(Select(c.arg(0).dom, c.arg(1)), Select(c.arg(0).val, c.arg(1)), c.arg(2)))])
    return E


@C.unit('GetKeys')
def _(prog):
    E = Engine(prog)
    i, k = Ints('i k')

    def inv(L):
        o, g = L.E.map_order(L.st, L.argv(0))
        n, v = L['itr'].idx, L['keys']
        return [('position', And(n >= 0, n <= L.argv(0).size, v.len == n)),
                ('prefix', FA([i], Implies(And(0 <= i, i < n), Select(v.arr, i) == Select(o, i)), Select(v.arr, i)))]

    def post(c):
        m, v = c.arg(0), c.ret
        return [('as many keys as entries', v.len == m.size), ('every element is a key', FA([i], Implies(And(0 <= i, i < v.len), Select(m.dom, Select(v.arr, i))))),
                ('in ascending order', FA([i, k], Implies(And(0 <= i, i < k, k < v.len), Select(v.arr, i) < Select(v.arr, k)))),
                ('every key occurs', FA([k], Implies(Select(m.dom, k), Exists([i], And(0 <= i, i < v.len, Select(v.arr, i) == k)))))]
    E.verify(prog.fn('arc_helpers::GetKeys'), post=post, loops=[Loop(inv, decreases=lambda L: L.argv(0).size - L['itr'].idx)])
    return E


@C.unit('MakeFromKeysAndValues')
def _(prog):
    E = Engine(prog)
    i, j, k = Ints('i j k')

    def spec(ks, vs, m, n):
        return [('every key is present', FA([i], Implies(And(0 <= i, i < n), Select(m.dom, Select(ks.arr, i))), Select(ks.arr, i))),
                ('the last value of a key wins', FA([i], Implies(And(0 <= i, i < n, FA([j], Implies(And(i < j, j < n), Select(ks.arr, j) != Select(ks.arr, i)),
                                                                                         Select(ks.arr, j))),
                                                                 Select(m.val, Select(ks.arr, i)) == Select(vs.arr, i)), Select(ks.arr, i))),
                ('no other key', FA([k], Implies(Select(m.dom, k), Exists([i], And(0 <= i, i < n, Select(ks.arr, i) == k))), Select(m.dom, k)))]

    E.verify(prog.fn('arc_helpers::MakeFromKeysAndValues'), pre=lambda c: [('lengths', c.arg(0).len == c.arg(1).len)],
             post=lambda c: spec(c.arg(0), c.arg(1), c.ret, c.arg(0).len),
             loops=[Loop(lambda L: [('idx', And(L['idx'] >= 0, L['idx'] <= L.argv(0).len))] + spec(L.argv(0), L.argv(1), L['map'], L['idx']),
                         decreases=lambda L: L.argv(0).len - L['idx'])])
    return E


@C.unit('arc_std::find')
def _(prog):
    E = Engine(prog)
    i = Int('i')

    def post(c):
        v, x, r = c.arg(0), c.arg(1), c.ret
        return [('range', And(r >= -1, r < v.len)), ('found', Implies(r >= 0, Select(v.arr, r) == x)),
                ('first', FA([i], Implies(And(0 <= i, i < If(r < 0, v.len, r)), Select(v.arr, i) != x)))]
    E.verify(prog.fn('arc_std::find'), pre=lambda c: [('fits an int', c.arg(0).len < 2 ** 31)], post=post)
    return E


C.cpp('c17.cpp', secs=(6, 30))

if __name__ == '__main__':
    run(C)
