import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA

TU = '''#include "/repo/include/arc_utilities/arc_helpers.hpp"
struct Thing { int id; };
struct Other { int id; };
inline void use() {
std::vector<Thing> a; Other b; std::function<double(const Thing&, const Other&)> f;
arc_helpers::GetKNearestNeighborsParallel(a, b, f, 3); arc_helpers::GetKNearestNeighborsSerial(a, b, f, 3);
}
'''
C = Check('C09', tus=dict(main=TU),
          proof_scope='GetKNearestNeighborsSerial for any element type, distance function, size and K; GetKNearestNeighborsParallel as compiled without '
                      'OpenMP (one thread); the threaded build is searched by the replay harness (bounded)',
          assumptions=['the distance function is pure and returns finite values'])


def mk(prog, E):
    dbl = next(prog.ty(i) for i in range(len(prog.types)) if prog.types[i]['k'] == 'float' and prog.types[i].get('w') == 64)

    def d(st, items, cur, f, i):
        et = items.et
        return E.call_ufun(st, f, [(et, E.S.unpack(et, Select(items.arr, i))), (E.curty, cur)], dbl)
    return d


def slot(E, v, q):
    p = E.S.unpack(v.et, Select(v.arr, q))
    return p.f['first'], p.f['second']


def facts(E, d, st, a, v, n, m, partial):
    """v holds the min(K, n) nearest of items 0..n-1 in m used slots"""
    items, cur, f, K = a
    q, r, i = Ints('q r i')
    D = lambda j: d(st, items, cur, f, j)
    fq, sq = slot(E, v, q)
    fr, _ = slot(E, v, r)
    out = [('used slots name items and carry their distance', FA([q], Implies(And(0 <= q, q < m), And(0 <= fq, fq < n, sq == D(fq))), Select(v.arr, q))),
           ('no item twice', FA([q, r], Implies(And(0 <= q, q < r, r < m), fq != fr), (Select(v.arr, q), Select(v.arr, r)))),
           ('nothing nearer is left out', FA([i], Implies(And(0 <= i, i < n), Or(Exists([q], And(0 <= q, q < m, fq == i)),
                                                                                FA([r], Implies(And(0 <= r, r < v.len), D(i) >= slot(E, v, r)[1]), Select(v.arr, r)))),
                                             D(i)))]
    if partial:
        out.append(('unused slots are empty', FA([q], Implies(And(m <= q, q < v.len), And(fq == -1, sq == E.INF)), Select(v.arr, q))))
    return out


def amin(a, b):
    return If(a < b, a, b)


def spec(prog, fn, loops):
    E = Engine(prog)
    f = prog.fn('arc_helpers::' + fn)
    E.curty = prog.ty(f['p'][1]['t'])
    d = mk(prog, E)
    i = Int('i')

    def pre(c):
        fin = d(c.st0, c.arg(0), c.arg(1), c.arg(2), i)
        return [('finite distances', FA([i], And(fin < E.INF, fin > -E.INF), fin))]

    def post(c):
        a = [c.arg(k) for k in range(4)]
        n = a[0].len
        return [('size', c.ret.len == amin(a[3], n))] + facts(E, d, c.st1, a, c.ret, n, c.ret.len, False)
    E.verify(f, pre=pre, post=post, loops=loops(E, d))
    return E


def args(L):
    return [L.argv(k) for k in range(4)]


def scan(E, d, get):
    def inv(L):
        a, idx, v = args(L), L['idx'], get(L)
        return [('idx', And(0 <= idx, idx <= a[0].len)), ('size', v.len == a[3])] + facts(E, d, L.st, a, v, idx, amin(idx, a[3]), True)

    def step(L):
        # what happened to the slot of the largest distance
        a, v0, v1, n = args(L), get(L.prev), get(L), L.prev['idx']
        m0, m1 = amin(n, a[3]), amin(n + 1, a[3])
        q, r, i = Ints('q r i')
        D = lambda j: d(L.st, a[0], a[1], a[2], j)
        has = lambda v, m, i: Exists([q], And(0 <= q, q < m, slot(E, v, q)[0] == i))
        far = lambda v, m, i: FA([r], Implies(And(0 <= r, r < m), D(i) >= slot(E, v, r)[1]), Select(v.arr, r))
        L.E.lemma(L.st, 'no slot gets farther', FA([r], Implies(And(0 <= r, r < m1), slot(E, v1, r)[1] <= slot(E, v0, r)[1]), Select(v1.arr, r)))
        L.E.lemma(L.st, 'the new item is selected or far', Or(has(v1, m1, n), far(v1, a[3], n)))
        L.E.lemma(L.st, 'an item far before stays far', FA([i], Implies(And(0 <= i, i < n, far(v0, a[3], i)), far(v1, a[3], i)), D(i)))
        L.E.lemma(L.st, 'a selected item stays selected or becomes far',
                  FA([q], Implies(And(0 <= q, q < m0), Or(slot(E, v1, q)[0] == slot(E, v0, q)[0], far(v1, a[3], slot(E, v0, q)[0]))), Select(v0.arr, q)))
    return Loop(inv, decreases=lambda L: L.argv(0).len - L['idx'], on_step=step)


def copy(E, d):
    i = Int('i')

    def inv(L):
        a, idx, v = args(L), L['idx'], L['k_nearests']
        f1, s1 = slot(E, v, i)
        return [('idx', And(0 <= idx, idx <= a[0].len)), ('size', v.len == a[0].len),
                ('copied', FA([i], Implies(And(0 <= i, i < idx), And(f1 == i, s1 == d(L.st, a[0], a[1], a[2], i))), Select(v.arr, i)))]
    return Loop(inv, decreases=lambda L: L.argv(0).len - L['idx'])


@C.unit('GetKNearestNeighborsSerial')
def _(prog):
    return spec(prog, 'GetKNearestNeighborsSerial', lambda E, d: [scan(E, d, lambda L: L['k_nearests']), copy(E, d)])


def per0(L):
    v = L['per_thread_nearests']
    return L.E.S.unpack(v.et, Select(v.arr, 0))


@C.unit('GetKNearestNeighborsParallel (one thread)')
def _(prog):
    i = Int('i')

    def same(L, n):
        v, p = L['k_nearests'], per0(L)
        return [('merged so far', And(v.len == n, p.len == L.argv(3), FA([i], Implies(And(0 <= i, i < n), Select(v.arr, i) == Select(p.arr, i)), Select(v.arr, i))))]

    def loops(E, d):
        s = scan(E, d, per0)
        inv0 = s.inv
        s.inv = lambda L: [('one thread', L['per_thread_nearests'].len == 1)] + inv0(L)
        threads = Loop(lambda L: [('thread', And(L['thread_idx'] >= 0, L['thread_idx'] <= 1))] + same(L, If(L['thread_idx'] == 0, 0, L.argv(3))),
                       decreases=lambda L: 1 - L['thread_idx'])
        merge = Loop(lambda L: [('slot', And(L['nearest_idx'] >= 0, L['nearest_idx'] <= L.argv(3)))] + same(L, L['nearest_idx']),
                     decreases=lambda L: L.argv(3) - L['nearest_idx'])
        return [s, threads, merge, copy(E, d)]
    return spec(prog, 'GetKNearestNeighborsParallel', loops)


C.cpp('c09.cpp', secs=(8, 60), flags=['-fopenmp'], libs=['-lgomp'])
C.cpp('c09.cpp', secs=(8, 60))

if __name__ == '__main__':
    run(C)
