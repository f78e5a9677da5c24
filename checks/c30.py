import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA

TU = '''#include "/repo/include/arc_utilities/eigen_helpers.hpp"
#include "/repo/include/arc_utilities/eigen_std_conversions.hpp"
inline void use() { using namespace EigenHelpers; std::vector<double> v; Eigen::Vector3d a; Eigen::VectorXd x; VectorVector3d vv; Eigen::Quaterniond q;
StdVectorDoubleToEigenVector3d(v); StdVectorDoubleToEigenVectorXd(v); EigenVector3dToStdVectorDouble(a); EigenVectorXdToStdVectorDouble(x); VectorEigenVectorToEigenVectorX(vv);
EigenVectorXToVectorEigenVector<double, 3>(x); StdVectorXToVectorEigenVector<double, 3>(v); EigenVectorXToStdVector(x); StdVectorToEigenVectorX(v);
StdVectorDoubleToEigenQuaterniond(v); EigenQuaterniondToStdVectorDouble(q); ConvertTo<std::vector<double>>(x);
}
'''
C = Check('C30', tus=dict(main=TU), proof_scope='vectors of every length; the templates are proved for double and blocks of three',
          assumptions=["Eigen's element access, segment() and data() do what they are documented to (a column vector is contiguous)", 'other scalar types and block lengths than double and 3 are only bounded (harness)'])
NS = 'EigenHelpers::'
i, j, k = Ints('i j k')


def fn(prog, name):
    fs = prog.find(name)
    if len(fs) != 1:
        raise Undecided(f'{name}: {len(fs)} overloads')
    return fs[0]


def at(v, k):
    return Select(v.arr, k)


def el(m, r):
    return Select(Select(m.arr, r), 0)


def pt(v, k):
    return lambda E: [r[0] for r in E.S.unpack(v.ty.velem, at(v, k)).e]


@C.unit('three elements and quaternions')
def _(prog):
    E = Engine(prog)
    E.verify(fn(prog, NS + 'StdVectorDoubleToEigenVector3d'), pre=lambda c: [('three', c.arg(0).len == 3)],
             post=lambda c: [('in order', And(*[c.ret.e[x][0] == at(c.arg(0), x) for x in range(3)]))])
    E.verify(fn(prog, NS + 'EigenVector3dToStdVectorDouble'), pre=lambda c: [],
             post=lambda c: [('length', c.ret.len == 3), ('in order', And(*[at(c.ret, x) == c.arg(0).e[x][0] for x in range(3)]))])
    Q = lambda q: [q.f[x] for x in ('x', 'y', 'z', 'w')] if hasattr(q, 'f') else [q.e[x][0] for x in range(4)]
    E.verify(fn(prog, NS + 'StdVectorDoubleToEigenQuaterniond'), pre=lambda c: [('four', c.arg(0).len == 4)],
             post=lambda c: [('x y z w', And(*[Q(c.ret)[x] == at(c.arg(0), x) for x in range(4)]))])
    E.verify(fn(prog, NS + 'EigenQuaterniondToStdVectorDouble'), pre=lambda c: [],
             post=lambda c: [('length', c.ret.len == 4), ('x y z w', And(*[at(c.ret, x) == Q(c.arg(0))[x] for x in range(4)]))])
    return E


@C.unit('vectors of any length')
def _(prog):
    E = Engine(prog)
    same = lambda m, v: FA([k], Implies(And(0 <= k, k < v.len), el(m, k) == at(v, k)), at(v, k))
    to = lambda c: [('length', And(c.ret.rows == c.arg(0).len, c.ret.cols == 1)), ('in order', same(c.ret, c.arg(0)))]
    back = lambda c: [('length', c.ret.len == c.arg(0).rows), ('in order', same(c.arg(0), c.ret))]
    col = lambda c: [('a column', And(c.arg(0).rows >= 0, c.arg(0).cols == 1))]
    E.verify(fn(prog, NS + 'StdVectorDoubleToEigenVectorXd'), pre=lambda c: [], post=to, loops=[Loop(inv=lambda L: [
        ('idx', And(0 <= L['idx'], L['idx'] <= L.argv(0).len)), ('shape', And(L['eigen_vector'].rows == L.argv(0).len, L['eigen_vector'].cols == 1)),
        ('done', FA([k], Implies(And(0 <= k, k < L['idx']), el(L['eigen_vector'], k) == at(L.argv(0), k)), at(L.argv(0), k)))], decreases=lambda L: L.argv(0).len - L['idx'])])
    E.verify(fn(prog, NS + 'EigenVectorXdToStdVectorDouble'), pre=col, post=back, loops=[Loop(inv=lambda L: [
        ('idx', And(0 <= L['idx'], L['idx'] <= L.argv(0).rows)), ('shape', L['vector'].len == L.argv(0).rows),
        ('done', FA([k], Implies(And(0 <= k, k < L['idx']), at(L['vector'], k) == el(L.argv(0), k)), at(L['vector'], k)))], decreases=lambda L: L.argv(0).rows - L['idx'])])
    E.verify(fn(prog, NS + 'EigenVectorXToStdVector'), pre=col, post=back)
    E.verify(fn(prog, NS + 'StdVectorToEigenVectorX'), pre=lambda c: [], post=to)
    E.verify(fn(prog, 'ConvertTo'), pre=col, post=back)
    return E


@C.unit('blocks of three')
def _(prog):
    E = Engine(prog)
    pt = lambda v, k: [r[0] for r in E.S.unpack(v.ty.velem, at(v, k)).e]
    blk = lambda n, x, v, y, at=at: And(*[n(x, 3 * y + d) == pt(v, y)[d] for d in range(3)])
    flat = lambda x, v, n, get: FA([k], Implies(And(0 <= k, k < n), And(*[get(x, 3 * k + d) == pt(v, k)[d] for d in range(3)])), at(v, k))
    E.verify(fn(prog, NS + 'VectorEigenVectorToEigenVectorX'), pre=lambda c: [('not empty', c.arg(0).len > 0)],
             post=lambda c: [('length', And(c.ret.rows == 3 * c.arg(0).len, c.ret.cols == 1)), ('in order', flat(c.ret, c.arg(0), c.arg(0).len, el))],
             loops=[Loop(inv=lambda L: [('idx', And(0 <= L['idx'], L['idx'] <= L.argv(0).len)), ('shape', And(L['eigen_result'].rows == 3 * L.argv(0).len, L['eigen_result'].cols == 1)),
                                        ('done', flat(L['eigen_result'], L.argv(0), L['idx'], el))], decreases=lambda L: L.argv(0).len - L['idx'])])
    E.verify(fn(prog, NS + 'EigenVectorXToVectorEigenVector'), pre=lambda c: [('whole blocks', And(c.arg(0).rows >= 0, c.arg(0).rows % 3 == 0, c.arg(0).cols == 1))],
             post=lambda c: [('length', 3 * c.ret.len == c.arg(0).rows), ('in order', flat(c.arg(0), c.ret, c.ret.len, el))],
             loops=[Loop(inv=lambda L: [('idx', And(0 <= L['idx'], 3 * L['idx'] <= L.argv(0).rows)), ('shape', And(3 * L['vector_eigen_output'].len == L.argv(0).rows, 3 * L['num_vectors'] == L.argv(0).rows)),
                                        ('done', flat(L.argv(0), L['vector_eigen_output'], L['idx'], el))], decreases=lambda L: L['num_vectors'] - L['idx'])])
    outer = lambda L: [('idx', And(0 <= L['vec_idx'], 3 * L['vec_idx'] <= L.argv(0).len)), ('shape', And(3 * L['vector_eigen_output'].len == L.argv(0).len, 3 * L['num_vectors'] == L.argv(0).len)),
                       ('done', flat(L.argv(0), L['vector_eigen_output'], L['vec_idx'], at))]
    E.verify(fn(prog, NS + 'StdVectorXToVectorEigenVector'), pre=lambda c: [('whole blocks', c.arg(0).len % 3 == 0)],
             post=lambda c: [('length', 3 * c.ret.len == c.arg(0).len), ('in order', flat(c.arg(0), c.ret, c.ret.len, at))],
             loops=[Loop(inv=outer, decreases=lambda L: L['num_vectors'] - L['vec_idx']),
                    Loop(inv=lambda L: outer(L) + [('inner', And(0 <= L['inner_idx'], L['inner_idx'] <= 3, L['vec_idx'] < L['num_vectors'])),
                                                   ('block', And(*[Implies(L['inner_idx'] > d, pt(L['vector_eigen_output'], L['vec_idx'])[d] == at(L.argv(0), 3 * L['vec_idx'] + d)) for d in range(3)]))],
                         decreases=lambda L: 3 - L['inner_idx'])])
    return E


C.cpp('c30.cpp', secs=(10, 60), flags=['-fno-sanitize=nonnull-attribute'])     # memcpy of nothing from a null data() is left alone
run(C)
