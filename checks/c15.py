import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA

TU = '''#include "/repo/include/arc_utilities/arc_helpers.hpp"
inline void use() {
arc_helpers::SplitMix64PRNG a(1); arc_helpers::XorShift128PlusPRNG b(1); arc_helpers::XorShift1024StarPRNG c(1);
a(); b(); c(); a.discard(3); b.discard(3); c.discard(3); a.seed(1); b.seed(1); c.seed(1);
}
'''
C = Check('C15', tus=dict(main=TU), proof_scope='seed, operator() and discard of the three generators: every state, every seed, every count (bit vectors)')
N = 'arc_helpers::'
G = 0x9E3779B97F4A7C15
V = lambda x: BitVecVal(x, 64)


def mix(s):
    z = (s ^ LShR(s, 30)) * V(0xBF58476D1CE4E5B9)
    z = (z ^ LShR(z, 27)) * V(0x94D049BB133111EB)
    return z ^ LShR(z, 31)


def seeded(seed, k):
    """k-th SplitMix64 output of a seed"""
    return mix(seed + V((G * (k + 1)) % 2 ** 64))


def split_step(t):
    s = t.f['state_'] + V(G)
    return [s], mix(s)


def plus_step(t):
    s1, s0 = t.f['state_1_'], t.f['state_2_']
    s1 = s1 ^ (s1 << 23)
    n = s1 ^ s0 ^ LShR(s1, 18) ^ LShR(s0, 5)
    return [s0, n], n + s0


def fields(t):
    return [t.f[k] for k in sorted(t.f)]


def star_step(t):
    p, a = t.f['p'], t.f['state_'].arr
    i0 = SignExt(32, p)
    q = (p + 1) & 15
    i1 = SignExt(32, q)
    s0, s1 = Select(a, i0), Select(a, i1)
    s1 = s1 ^ (s1 << 31)
    n = s1 ^ s0 ^ LShR(s1, 11) ^ LShR(s0, 30)
    return q, i1, n, n * V(1181783497276652981)


def nxt(c, cls):
    t, u = c.this, c.this1
    if cls != 'XorShift1024StarPRNG':
        st, out = (split_step if cls == 'SplitMix64PRNG' else plus_step)(t)
        return [('new state', And([a == b for a, b in zip(fields(u), st)])), ('output', c.ret == out)]
    q, i1, n, out = star_step(t)
    k = BitVec('k', 64)
    return [('new position', u.f['p'] == q), ('output', c.ret == out),
            ('new state', ForAll([k], Implies(ULT(k, 16), Select(u.f['state_'].arr, k) == If(k == i1, n, Select(t.f['state_'].arr, k)))))]


def inrng(c, cls):
    return [] if cls != 'XorShift1024StarPRNG' else [('position', And(c.this.f['p'] >= 0, c.this.f['p'] < 16))]


CL = ('SplitMix64PRNG', 'XorShift128PlusPRNG', 'XorShift1024StarPRNG')


def member(prog, cls, n):
    return prog.fn(N + cls + '::' + n)


@C.unit('operator()')
def _(prog):
    E = Engine(prog, ints='bv')
    for cls in CL:
        E.verify(member(prog, cls, 'operator()'), pre=lambda c: inrng(c, cls), post=lambda c: nxt(c, cls))
    return E


@C.unit('seed')
def _(prog):
    E = Engine(prog, ints='bv')
    E.verify(member(prog, CL[0], 'seed'), post=lambda c: [('state', c.this1.f['state_'] == c.arg(0))])
    E.verify(member(prog, CL[1], 'seed'), post=lambda c: [('state', And(c.this1.f['state_1_'] == seeded(c.arg(0), 0), c.this1.f['state_2_'] == seeded(c.arg(0), 1)))])
    E.verify(member(prog, CL[2], 'seed'), post=lambda c: [('position', c.this1.f['p'] == 0)] + [
        (f'state {k}', Select(c.this1.f['state_'].arr, V(k)) == seeded(c.arg(0), k)) for k in range(16)])
    return E


@C.unit('constructors seed')
def _(prog):
    E = Engine(prog, ints='bv')
    one = lambda cls: prog.fn(N + cls + '::' + cls, lambda P, f: len(f['p']) == 1)
    E.verify(one(CL[0]), name=CL[0], post=lambda c: [('state', c.this1.f['state_'] == c.arg(0))])
    E.verify(one(CL[1]), name=CL[1], post=lambda c: [('state', And(c.this1.f['state_1_'] == seeded(c.arg(0), 0), c.this1.f['state_2_'] == seeded(c.arg(0), 1)))])
    E.verify(one(CL[2]), name=CL[2], post=lambda c: [('position', c.this1.f['p'] == 0)] + [
        (f'state {k}', Select(c.this1.f['state_'].arr, V(k)) == seeded(c.arg(0), k)) for k in range(16)])
    return E


def disc(cls):
    @C.unit(f'discard {cls}')
    def _(prog):
        E = Engine(prog, ints='bv')
        # orbit(n): the state after n draws; unfolded once per loop step by the step function proved above
        st = {}

        def atoms(t):
            return [t.f['state_']] if cls == CL[0] else [t.f['state_1_'], t.f['state_2_']] if cls == CL[1] else [t.f['p'], t.f['state_'].arr]

        def orbit(t, n):
            fs = atoms(t)
            if 'f' not in st:
                st['f'] = [Function(f'orbit{k}', *[x.sort() for x in fs], BitVecSort(64), fs[k].sort()) for k in range(len(fs))]
            return [g(*fs, n) for g in st['f']]

        def same(t, o, E, s):
            fs = atoms(t)
            if cls != CL[2]:
                return And([a == b for a, b in zip(fs, o)])
            return And(fs[0] == o[0], And([Select(fs[1], V(k)) == Select(o[1], V(k)) for k in range(16)]))

        def inv(L):
            t0 = L.entry.slots[L.st.frames[0].this.sid]
            t, i = L.this, L['i']
            r = [('count', ULE(i, L.argv(0))), ('state after i draws', same(t, orbit(t0, i), E, L.st))]
            return r + ([('position', And(t.f['p'] >= 0, t.f['p'] < 16))] if cls == CL[2] else [])

        def unfold(L):
            # definition of the orbit
            t0 = L.entry.slots[L.st.frames[0].this.sid]
            p, i = L.prev.this, L.prev['i']
            o, o1 = orbit(t0, i), orbit(t0, i + 1)
            if cls == CL[0]:
                L.st.assume(o1[0] == o[0] + V(G))
            elif cls == CL[1]:
                s1, s0 = o
                s1 = s1 ^ (s1 << 23)
                L.st.assume(o1[0] == s0, o1[1] == s1 ^ s0 ^ LShR(s1, 18) ^ LShR(s0, 5))
            else:
                pp, a = o
                q = (pp + 1) & 15
                s0, s1 = Select(a, SignExt(32, pp)), Select(a, SignExt(32, q))
                s1 = s1 ^ (s1 << 31)
                L.st.assume(o1[0] == q, o1[1] == Store(a, SignExt(32, q), s1 ^ s0 ^ LShR(s1, 11) ^ LShR(s0, 30)))

        def pre(c):
            o = orbit(c.this, V(0))
            return inrng(c, cls) + [('orbit starts at the state', same(c.this, o, E, None))]
        E.verify(member(prog, cls, 'discard'), pre=pre, post=lambda c: [('n draws were skipped', same(c.this1, orbit(c.this, c.arg(0)), E, None))],
                 loops=[Loop(inv, on_step=unfold)])
        return E


for cls in CL:
    disc(cls)

C.cpp('c15.cpp', secs=(6, 30))

if __name__ == '__main__':
    run(C)
