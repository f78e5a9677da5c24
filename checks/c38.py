import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State
from values import FM
from codec import pre_kept
import lib

TYPES = ['Eigen::Vector3d', 'Eigen::Matrix<double, 6, 1>', 'Eigen::Matrix<double, 7, 1>', 'Eigen::VectorXd', 'Eigen::MatrixXd', 'Eigen::Matrix3Xd', 'Eigen::Matrix3Xf', 'Eigen::MatrixXf']
TU = '''#include <cassert>
#include "/repo/include/arc_utilities/serialization_eigen.hpp"
inline void use() { using namespace arc_utilities; std::vector<uint8_t> b;
''' + '\n'.join('{ %s x; SerializeEigen(x, b); SerializedSizeEigen(x); DeserializeEigen<%s>(b, 0); }' % (t, t) for t in TYPES) + '''
{ Eigen::Isometry3d x; SerializeEigen<Eigen::Isometry3d>(x, b); SerializedSizeEigen(x); DeserializeEigen<Eigen::Isometry3d>(b, 0); } }
'''
C = Check('C38', tus=dict(main=TU), proof_scope='Vector3d, Vector6d, Vector7d, VectorXd, MatrixXd, Matrix3Xd, Matrix3Xf, MatrixXf and Isometry3d of every size and content, at every position of a buffer',
          assumptions=['matrix cells are stored in column-major order and copied by memcpy', 'a dynamic size fits in memory (below 2^50 cells)', 'object representations of scalars are what memcpy copies'])
q = 'arc_utilities::'
i, j = Ints('i j')


def layout(E, prog, t, x):
    """(header values, shape, cell (r, c), scalar type) of the encoding of x"""
    r, c = t.mshape
    if isinstance(x, FM):
        return [], (IntVal(x.r), IntVal(x.c)), None, t.args[0]
    return [v for d, v in ((r, x.rows), (c, x.cols)) if d < 0], (x.rows, x.cols), lambda a, b: Select(Select(x.arr, a), b), t.args[0]


def u64(prog):
    return next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'int' and prog.types[x].get('w') == 64 and not prog.ty(x).sg)


def size(E, prog, t, x):
    h, (r, c), _, s = layout(E, prog, t, x)
    return 8 * len(h) + lib.pod_size(s) * (x.r * x.c if isinstance(x, FM) else r * c)


def spelled(E, prog, t, x, arr, at):
    h, (r, c), cell, s = layout(E, prog, t, x)
    w = lib.pod_size(s)
    f, _ = lib.rep_fn(E, s)
    g, _ = lib.rep_fn(E, u64(prog))
    out = [('size header %d' % n, And(*[Select(arr, at + 8 * n + k) == g(IntVal(k), v) for k in range(8)])) for n, v in enumerate(h)]
    o = at + 8 * len(h)
    if cell is None:
        return out + [('cells', And(*[Select(arr, o + w * (b * x.r + a) + k) == f(IntVal(k), x.e[a][b]) for a in range(x.r) for b in range(x.c) for k in range(w)]))]
    p = lib.CM(r, i, j)
    return out + [('cells', FA([i, j], Implies(And(0 <= i, i < r, 0 <= j, j < c), And(*[Select(arr, o + w * p + k) == f(IntVal(k), cell(i, j)) for k in range(w)])), p))]


def inside(x):
    return [] if isinstance(x, FM) else [FA([i, j], Implies(And(0 <= i, i < x.rows, 0 <= j, j < x.cols), And(0 <= lib.CM(x.rows, i, j), lib.CM(x.rows, i, j) < x.rows * x.cols)), lib.CM(x.rows, i, j))]


def fits(x):
    return BoolVal(True) if isinstance(x, FM) else And(x.rows >= 0, x.cols >= 0, x.rows < 2 ** 50, x.cols < 2 ** 50, x.rows * x.cols < 2 ** 50)


def same(x, y):
    if isinstance(x, FM):
        return And(*[a == b for ra, rb in zip(x.e, y.e) for a, b in zip(ra, rb)])
    return And(x.rows == y.rows, x.cols == y.cols, FA([i, j], Implies(And(0 <= i, i < x.rows, 0 <= j, j < x.cols), Select(Select(x.arr, i), j) == Select(Select(y.arr, i), j)), Select(Select(x.arr, i), j)))


@C.unit('serialization')
def _(prog):
    out = []
    for f in prog.find(q + 'SerializeEigen'):
        t = prog.ty(f['p'][0]['t']).deref()
        E = Engine(prog)
        E.verify(f, name=f'SerializeEigen<{t.s}>', pre=lambda c: [('size', And(c.arg(1).len < 2 ** 50, fits(c.arg(0))))],
                 post=lambda c, E=E, t=t: [('what was in the buffer stays', pre_kept(c.arg(1).arr, c.fin(1).arr, c.arg(1).len)), ('size of the buffer', c.fin(1).len == c.arg(1).len + size(E, prog, t, c.arg(0))),
                                           ('bytes written are reported', c.ret == size(E, prog, t, c.arg(0)))] + spelled(E, prog, t, c.arg(0), c.fin(1).arr, c.arg(1).len))
        out.append(E)
    for f in prog.find(q + 'SerializedSizeEigen'):
        t = prog.ty(f['p'][0]['t']).deref()
        E = Engine(prog)
        E.verify(f, name=f'SerializedSizeEigen<{t.s}>', pre=lambda c: [('size', fits(c.arg(0)))], post=lambda c, E=E, t=t: [('size', c.ret == size(E, prog, t, c.arg(0)))])
        out.append(E)
    if len(out) < 18:
        raise Undecided('instances of SerializeEigen')
    return out


@C.unit('deserialization')
def _(prog):
    out = []
    for f in prog.find(q + 'DeserializeEigen'):
        t = dict(prog.ty(f['r']).deref().fields())['first']
        E = Engine(prog)
        st0 = State()
        x = E.havoc(st0, t, 'original')
        n = size(E, prog, t, x)

        def setup(E, c, st, st0=st0, x=x):
            st.assume(*st0.pc, *inside(x))
        # assert(current < buffer.size()): nothing can be read at the end of a buffer, so a fixed-size value is never empty, and a dynamic one has its header
        E.verify(f, name=f'DeserializeEigen<{t.s}>', setup=setup,
                 pre=lambda c, E=E, t=t, x=x, n=n: [('an encoded value', And(*[v for _, v in spelled(E, prog, t, x, c.arg(0).arr, c.arg(1))], c.arg(1) >= 0, c.arg(1) + n <= c.arg(0).len, fits(x)))],
                 post=lambda c, x=x, n=n: [('the value', same(c.ret.f['first'], x)), ('bytes read', c.ret.f['second'] == n)])
        out.append(E)
    if len(out) < 9:
        raise Undecided('instances of DeserializeEigen')
    return out


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c38.cpp')):
    C.cpp('c38.cpp', flags=['-D_GLIBCXX_ASSERTIONS', '-fno-sanitize=nonnull-attribute'])
if __name__ == '__main__':
    run(C)
