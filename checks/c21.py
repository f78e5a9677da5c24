import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State
from values import FM

TU = '''#include <Eigen/Dense>
#include "/repo/include/arc_utilities/get_neighbours.hpp"
inline void use() { using namespace arc_utilities::GetNeighbours;
std::function<Eigen::Vector2d(const Eigen::Vector2d&)> r2; std::function<bool(const Eigen::Vector2d&)> v2;
std::function<Eigen::Vector3d(const Eigen::Vector3d&)> r3; std::function<bool(const Eigen::Vector3d&)> v3;
TwoDimensional8Connected<Eigen::Vector2d, double>(Eigen::Vector2d(), 0., 1., 0., 1., 1., r2, v2);
ThreeDimensional8Connected<Eigen::Vector3d, double>(Eigen::Vector3d(), 0., 1., 0., 1., 0., 1., 1., r3, v3);
}
'''
C = Check('C21', tus=dict(main=TU), proof_scope='both functions for double coordinates and every pair of callbacks',
          assumptions=['the callbacks are pure', 'rounding of the coordinates of the candidates is ignored'])
I, R = IntSort(), RealSort()
i, j = Ints('i j')


def mx(a, b):
    return If(a < b, b, a)


def mn(a, b):
    return If(b < a, b, a)


def check(prog, name, dim):
    E = Engine(prog)
    f = prog.fn('arc_utilities::GetNeighbours::' + name)
    vt = prog.ty(f['p'][0]['t']).deref()
    bt = next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'bool')
    S0 = State()
    off = Ints('a b c')[:dim]
    vs = E.S.sort(vt)
    cand = Function(f'candidate{dim}', *[I] * dim, vs)
    ok = Function(f'acceptable{dim}', *[I] * dim, BoolSort())
    nb = 2 * dim + 1     # index of step_size

    def mk(*x):
        return FM([[v] for v in x], vt)

    def rnd(c, v):
        return E.call_ufun(S0, c.arg(nb + 1), [(vt, v)], vt)

    def defs(c):
        cfg = [c.arg(0).e[k][0] for k in range(dim)]
        s = c.arg(nb)
        b = [(c.arg(1 + 2 * k), c.arg(2 + 2 * k)) for k in range(dim)]
        lo = rnd(c, mk(*[mx(b[k][0], cfg[k] - s) for k in range(dim)]))
        hi = rnd(c, mk(*[mn(b[k][1], cfg[k] + s) for k in range(dim)]))
        p = rnd(c, mk(*[cfg[k] + s * ToReal(off[k]) for k in range(dim)]))
        x = [p.e[k][0] for k in range(dim)]
        good = And(*[And(lo.e[k][0] <= x[k], x[k] <= hi.e[k][0]) for k in range(dim)], Or(*[x[k] != cfg[k] for k in range(dim)]), E.call_ufun(S0, c.arg(nb + 2), [(vt, p)], bt))
        return [('definition of the candidates', FA(off, And(cand(*off) == E.S.pack(vt, p), ok(*off) == good), cand(*off)))]

    def code(x):
        r = IntVal(0)
        for v in x:
            r = 3 * r + v + 1
        return r

    def dom(x):
        return And(*[And(-1 <= v, v <= 1) for v in x])

    def inv(level):
        def g(L):
            N, W, S = L['neighbours'], L.st.ghost['W'], L.st.ghost['S']
            names = ['x_offset', 'y_offset', 'z_offset']
            cur = [L[names[k]] for k in range(level + 1)] + [IntVal(-1)] * (dim - 1 - level)
            before = code(off) < code(cur)
            so = lambda x: [Select(S[k], x) for k in range(dim)]
            return [('offsets', And(*[And(-1 <= cur[k], cur[k] <= (1 if k < level else 2)) for k in range(level + 1)])),
                    ('accepted candidates are listed', FA(off, Implies(And(dom(off), before, ok(*off)), And(0 <= Select(W, code(off)), Select(W, code(off)) < N.len, Select(N.arr, Select(W, code(off))) == cand(*off))), cand(*off))),
                    ('listed are accepted candidates', FA([i], Implies(And(0 <= i, i < N.len), And(dom(so(i)), code(so(i)) < code(cur), ok(*so(i)), Select(N.arr, i) == cand(*so(i)),
                                                                                                Implies(i > 0, code(so(i - 1)) < code(so(i))))), Select(N.arr, i), Select(S[0], i)))]
        return g

    def step(L):
        names = ['x_offset', 'y_offset', 'z_offset']
        N0, N1 = L.prev['neighbours'], L['neighbours']
        cur = [L.prev[names[k]] for k in range(dim)]
        W, S = L.st.ghost['W'], L.st.ghost['S']
        E.lemma(L.st, 'the candidate considered', And(N1.len == If(ok(*cur), N0.len + 1, N0.len), Implies(ok(*cur), Select(N1.arr, N0.len) == cand(*cur)), dom(cur)))
        L.st.ghost['W'] = Store(W, code(cur), N0.len)
        L.st.ghost['S'] = [Store(S[k], N0.len, cur[k]) for k in range(dim)]

    def setup(E_, c, st):
        st.ghost['W'] = K(I, IntVal(-1))
        for k in range(dim):
            st.ghost['S%d' % k] = K(I, IntVal(0))

    return E, f, defs, inv, step, setup, cand, ok, off, dom, code


def verify(prog, name, dim):
    E, f, defs, inv, step0, setup, cand, ok, off, dom, code = check(prog, name, dim)
    gs = ['W'] + ['S%d' % k for k in range(dim)]

    def wrapS(fn):
        def g(L):
            L.st.ghost['S'] = [L.st.ghost['S%d' % k] for k in range(dim)]
            r = fn(L)
            S = L.st.ghost.pop('S')
            for k in range(dim):
                L.st.ghost['S%d' % k] = S[k]
            return r
        return g

    def post(c):
        N = c.ret
        W, S = c.st1.ghost['W'], [c.st1.ghost['S%d' % k] for k in range(dim)]
        so = lambda x: [Select(S[k], x) for k in range(dim)]
        return [('every acceptable grid point one step away is returned', FA(off, Implies(And(dom(off), ok(*off)), Exists([j], And(0 <= j, j < N.len, Select(N.arr, j) == cand(*off)))), cand(*off))),
                ('only acceptable grid points one step away are returned, once per direction, in order', FA([i], Implies(And(0 <= i, i < N.len), And(dom(so(i)), ok(*so(i)), Select(N.arr, i) == cand(*so(i)),
                                                                                                          Implies(i > 0, code(so(i - 1)) < code(so(i))))), Select(N.arr, i)))]
    dec = lambda n: (lambda L: 2 - L[n])
    E.verify(f, setup=setup, pre=defs, post=post,
             loops=[Loop(wrapS(inv(k)), ghosts=gs, decreases=dec(['x_offset', 'y_offset', 'z_offset'][k]), on_step=wrapS(step0) if k == dim - 1 else None) for k in range(dim)])
    return E


@C.unit('2D')
def _(prog):
    return verify(prog, 'TwoDimensional8Connected', 2)


@C.unit('3D')
def _(prog):
    return verify(prog, 'ThreeDimensional8Connected', 3)


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c21.cpp')):
    C.cpp('c21.cpp', secs=(6, 60))

if __name__ == '__main__':
    run(C)
