import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA
from lib import qmul, is_rotation, axis_rotation

TU = '''#include "/repo/include/arc_utilities/eigen_helpers.hpp"
inline void use() { using namespace EigenHelpers; Eigen::Vector3d a; Eigen::Quaterniond q; Eigen::Matrix3d m; Eigen::Matrix4d h; Eigen::Matrix<double,6,1> w; Eigen::Isometry3d t; Eigen::VectorXd x; VectorVector3d vv; std::vector<double> v; Eigen::Vector2d p;
RotateVector(q,a); RotateVectorReverse(q,a); Skew(a); Unskew(m); TwistHat(w); TwistUnhat(h); AdjointFromTransform(t); TransformTwist(t,w); ExpMatrixExact(m,.1); ExpTwist(w,.1);
Distance(q,q); Distance(m,m); Distance(t,t,.5); QuaternionFromRPY(1,2,3); QuaternionFromUrdfRPY(1,2,3); EulerAnglesFromRotationMatrix(m); EulerAnglesFromQuaternion(q); EulerAnglesFromIsometry3d(t);
TransformFromRPY(1,2,3,1,2,3); TransformFromRPY(a,a); TransformFromRPY(x); TransformToRPY(t);
}
'''
C = Check('C26', tus=dict(main=TU), proof_scope='all vectors, twists, quaternions (of any length except zero where one is inverted), isometries and angles',
          assumptions=['double arithmetic is taken as exact real arithmetic; the harness allows rounding', 'sin and cos satisfy sin^2 + cos^2 = 1, acos has values in [0, pi]',
                       "Eigen's fixed-size algebra (blocks, products, comma initializers, quaternion and angle-axis products) does what it is documented to",
                       'for a rotation matrix, Quaternion(matrix) is a unit quaternion of it and eulerAngles(i, j, k) are angles that compose to it', 'TwistBetweenTransforms (matrix logarithm) is only bounded (harness)'])
I, R = IntSort(), RealSort()
NS = 'EigenHelpers::'
Z, ONE = RealVal(0), RealVal(1)


def pick(prog, name, *tys):
    fs = [f for f in prog.find(NS + name) if len(f['p']) == len(tys) and all(prog.ty(p['t']).deref().s.startswith(t) for t, p in zip(tys, f['p']))]
    if len(fs) != 1:
        raise Undecided(f'{name}{tys}: {len(fs)} overloads')
    return fs[0]


V3, VX, Q, M3, ISO = 'Eigen::Matrix<double, 3, 1>', 'Eigen::Matrix<double, -1, 1>', 'Eigen::Quaternion<double>', 'Eigen::Matrix<double, 3, 3>', 'Eigen::Transform<double, 3, 1'


def col(v):
    return [r[0] for r in v.e]


def dot(a, b):
    return sum([x * y for x, y in zip(a, b)], Z)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def skew(v):
    return [[Z, -v[2], v[1]], [v[2], Z, -v[0]], [-v[1], v[0], Z]]


def mm(a, b):
    return [[sum([a[i][k] * b[k][j] for k in range(len(b))], Z) for j in range(len(b[0]))] for i in range(len(a))]


def mv(a, v):
    return [dot(r, v) for r in a]


def eqv(a, b):
    return And(*[x == y for x, y in zip(a, b)])


def eqm(a, b):
    return And(*[eqv(x, y) for x, y in zip(a, b)])


def rot_of(q):
    """n R for a quaternion x y z w of squared length n: the rotation it stands for, times n"""
    x, y, z, w = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def engine(prog):
    E = Engine(prog)
    E.trig = True
    for n in ('sin', 'cos', 'acos'):
        E.ufs.setdefault(n, Function(n, R, R))
    return E


@C.unit('rotating vectors')
def _(prog):
    E = engine(prog)
    n2 = lambda c: dot(col(c.arg(0)), col(c.arg(0)))
    pre = lambda c: [('not zero', n2(c) > 0)]
    m = lambda c: rot_of(col(c.arg(0)))
    tr = lambda a: [[a[j][i] for j in range(3)] for i in range(3)]
    E.verify(pick(prog, 'RotateVector', Q, V3), pre=pre, post=lambda c: [('R v, component %d' % x, n2(c) * c.ret.e[x][0] == mv(m(c), col(c.arg(1)))[x]) for x in range(3)])
    E.verify(pick(prog, 'RotateVectorReverse', Q, V3), pre=pre, post=lambda c: [('R^T v, component %d' % x, n2(c) * c.ret.e[x][0] == mv(tr(m(c)), col(c.arg(1)))[x]) for x in range(3)])
    return E


@C.unit('twists as matrices')
def _(prog):
    E = engine(prog)
    E.verify(pick(prog, 'Skew', V3), pre=lambda c: [], post=lambda c: [('cross product matrix', eqm(c.ret.e, skew(col(c.arg(0)))))])
    E.verify(pick(prog, 'Unskew', M3), pre=lambda c: [], post=lambda c: [('the vector of a skew matrix', Implies(eqm(c.arg(0).e, [[-c.arg(0).e[j][i] for j in range(3)] for i in range(3)]), eqm(skew(col(c.ret)), c.arg(0).e)))])
    hat = lambda w: [a + [x] for a, x in zip(skew(w[3:]), w[:3])] + [[Z] * 4]
    E.verify(prog.find(NS + 'TwistHat')[0], pre=lambda c: [], post=lambda c: [('hat', eqm(c.ret.e, hat(col(c.arg(0)))))])
    E.verify(prog.find(NS + 'TwistUnhat')[0], pre=lambda c: [('a hatted twist', And(*[c.arg(0).e[x][y] == -c.arg(0).e[y][x] for x in range(3) for y in range(3)], *[x == 0 for x in c.arg(0).e[3]]))],
             post=lambda c: [('unhat', eqm(hat(col(c.ret)), c.arg(0).e))])
    rp = lambda t: ([r[:3] for r in t.e[:3]], [r[3] for r in t.e[:3]])
    iso = lambda c: [('isometry', is_rotation([r[:3] for r in c.arg(0).e[:3]]))]

    def moved(c, w):
        r, p = rp(c.arg(0))
        rw = mv(r, w[3:])
        return [x + y for x, y in zip(mv(r, w[:3]), cross(p, rw))] + rw
    unit = lambda k: [ONE if x == k else Z for x in range(6)]
    E.verify(prog.find(NS + 'AdjointFromTransform')[0], pre=iso, post=lambda c: [('column %d' % k, eqv([c.ret.e[x][k] for x in range(6)], moved(c, unit(k)))) for k in range(6)])
    E.verify(prog.find(NS + 'TransformTwist')[0], pre=iso, post=lambda c: [('component %d' % k, col(c.ret)[k] == moved(c, col(c.arg(1)))[k]) for k in range(6)])
    return E


@C.unit('exponentials')
def _(prog):
    E = engine(prog)
    sin, cos = E.ufs['sin'], E.ufs['cos']
    W = lambda c: c.arg(0).e
    vee = lambda m: [m[2][1], m[0][2], m[1][0]]
    rodrigues = lambda m, s, k: [[(1 if x == y else 0) + s * m[x][y] + k * mm(m, m)[x][y] for y in range(3)] for x in range(3)]
    exp = prog.find(NS + 'ExpMatrixExact')[0]
    pre = lambda c: [('skew', eqm(W(c), skew(vee(W(c))))), ('unit axis', dot(vee(W(c)), vee(W(c))) == 1)]
    post = lambda c: [('Rodrigues %d %d' % (x, y), c.ret.e[x][y] == rodrigues(W(c), sin(c.arg(1)), 1 - cos(c.arg(1)))[x][y]) for x in range(3) for y in range(3)]
    E.verify(exp, pre=pre, post=post)
    E.contracts[exp['id']] = Contract(pre=pre, post=post)
    f = prog.find(NS + 'ExpTwist')[0]
    n, th = Reals('n th')
    # the screw motion of exp(twist^ t): rotation by th = n t about the unit axis u = w / n, and V v with V = I t + (1 - cos th) / n [u] + (t - sin th / n) [u]^2
    def post(c):
        v, w, t = col(c.arg(0))[:3], col(c.arg(0))[3:], c.arg(1)
        u = [x / n for x in w]
        big = And(n >= RealVal('1e-99'), n * n == dot(w, w), th == t * n)
        r = rodrigues(skew(u), sin(th), 1 - cos(th))
        p1, p2 = cross(u, v), cross(u, cross(u, v))
        p = [t * v[x] + (1 - cos(th)) / n * p1[x] + (t - sin(th) / n) * p2[x] for x in range(3)]
        out = [('rotation %d %d' % (x, y), Implies(big, c.ret.e[x][y] == r[x][y])) for x in range(3) for y in range(3)]
        out += [('translation %d' % x, Implies(big, c.ret.e[x][3] == p[x])) for x in range(3)]
        still = And(*[x == 0 for x in w])
        out += [('pure translation', Implies(still, And(*[c.ret.e[x][y] == (1 if x == y else 0) for x in range(3) for y in range(3)], *[c.ret.e[x][3] == t * v[x] for x in range(3)])))]
        return out + [('homogeneous', eqv(c.ret.e[3], [0, 0, 0, 1]))]
    E.verify(f, pre=lambda c: [], post=post)
    return E


@C.unit('rotation distances')
def _(prog):
    E = engine(prog)
    acos = E.ufs['acos']
    unit = lambda q: dot(q, q) == 1
    d = lambda c: dot(col(c.arg(0)), col(c.arg(1)))
    qd = pick(prog, 'Distance', Q, Q)
    angle = lambda c: Or(c.ret == acos(2 * d(c) * d(c) - 1), And(c.ret == 0, d(c) * d(c) >= 1 - RealVal('1e-12')))
    E.verify(qd, pre=lambda c: [('unit', And(unit(col(c.arg(0))), unit(col(c.arg(1)))))], post=lambda c: [('angle of the relative rotation', angle(c)), ('range', And(c.ret >= 0, c.ret <= RealVal('3.141592653589794')))])
    m = lambda c: [[sum([c.arg(0).e[x][k] * c.arg(1).e[y][k] for k in range(3)], Z) for y in range(3)] for x in range(3)]
    tr = lambda c: sum([m(c)[x][x] for x in range(3)], Z)
    E.verify(pick(prog, 'Distance', M3, M3), pre=lambda c: [('trace', And(tr(c) >= -1, tr(c) <= 3))], post=lambda c: [('angle of the relative rotation', c.ret == acos((tr(c) - 1) / 2)), ('range', And(c.ret >= 0, c.ret <= RealVal('3.141592653589794')))])
    return E


@C.unit('roll, pitch and yaw')
def _(prog):
    E = engine(prog)
    sin, cos = E.ufs['sin'], E.ufs['cos']
    el = lambda k, x: [sin(x / 2) if k == y else Z for y in range(3)] + [cos(x / 2)]
    xyz = lambda r, p, y: qmul(qmul(el(0, r), el(1, p)), el(2, y))
    rpy = pick(prog, 'QuaternionFromRPY', 'double', 'double', 'double')
    A = lambda c: [c.arg(x) for x in range(3)]
    E.verify(rpy, pre=lambda c: [], post=lambda c: [('x, then y, then z', eqv(col(c.ret), xyz(*A(c))))])
    E.verify(pick(prog, 'QuaternionFromUrdfRPY', 'double', 'double', 'double'), pre=lambda c: [], post=lambda c: [('z, then y, then x', eqv(col(c.ret), qmul(qmul(el(2, c.arg(2)), el(1, c.arg(1))), el(0, c.arg(0)))))])
    E.contracts[rpy['id']] = Contract(post=lambda c: [('x, then y, then z', eqv(col(c.ret), xyz(*A(c))))])
    mat = lambda q: [[1 - 2 * (q[1] * q[1] + q[2] * q[2]), 2 * (q[0] * q[1] - q[2] * q[3]), 2 * (q[0] * q[2] + q[1] * q[3])], [2 * (q[0] * q[1] + q[2] * q[3]), 1 - 2 * (q[0] * q[0] + q[2] * q[2]), 2 * (q[1] * q[2] - q[0] * q[3])],
                     [2 * (q[0] * q[2] - q[1] * q[3]), 2 * (q[1] * q[2] + q[0] * q[3]), 1 - 2 * (q[0] * q[0] + q[1] * q[1])]]
    el2 = lambda m, r: Select(Select(m.arr, r), 0)
    qs = Reals('qx qy qz qw')

    def tf(six):
        def post(c):
            s = six(c)
            q = xyz(*s[3:])
            given = eqv(qs, q)      # named, so that the obligations stay small
            m = mat(qs)
            return [('translation', And(*[c.ret.e[x][3] == s[x] for x in range(3)]))] + [('rotation %d %d' % (x, y), Implies(given, c.ret.e[x][y] == m[x][y])) for x in range(3) for y in range(3)]
        return post
    E.verify(pick(prog, 'TransformFromRPY', *['double'] * 6), name='TransformFromRPY(numbers)', pre=lambda c: [], post=tf(lambda c: [c.arg(x) for x in range(6)]))
    E.verify(pick(prog, 'TransformFromRPY', V3, V3), name='TransformFromRPY(vectors)', pre=lambda c: [], post=tf(lambda c: col(c.arg(0)) + col(c.arg(1))))
    E.verify(pick(prog, 'TransformFromRPY', VX), name='TransformFromRPY(components)', pre=lambda c: [('six', And(c.arg(0).rows == 6, c.arg(0).cols == 1))], post=tf(lambda c: [el2(c.arg(0), x) for x in range(6)]))

    def composed(a):
        ms = [axis_rotation(k, sin(a[k]), cos(a[k])) for k in range(3)]
        return mm(mm(ms[0], ms[1]), ms[2])
    ea = pick(prog, 'EulerAnglesFromRotationMatrix', M3)
    euler = lambda m, a: Implies(is_rotation(m), eqm(composed(a), m))
    con = lambda c: [('they compose to the rotation', euler(c.arg(0).e, col(c.ret)))]
    E.verify(ea, pre=lambda c: [], post=con)
    E.contracts[ea['id']] = Contract(post=con)
    E.verify(pick(prog, 'EulerAnglesFromQuaternion', Q), pre=lambda c: [], post=lambda c: [('they compose to the rotation', euler(mat(col(c.arg(0))), col(c.ret)))])
    lin = lambda c: [r[:3] for r in c.arg(0).e[:3]]
    E.verify(pick(prog, 'EulerAnglesFromIsometry3d', ISO), pre=lambda c: [], post=lambda c: [('they compose to the rotation', euler(lin(c), col(c.ret)))])
    E.verify(pick(prog, 'TransformToRPY', ISO), pre=lambda c: [], post=lambda c: [('six', And(c.ret.rows == 6, c.ret.cols == 1)), ('translation', And(*[el2(c.ret, x) == c.arg(0).e[x][3] for x in range(3)])),
                                                                                ('they compose to the rotation', euler(lin(c), [el2(c.ret, x) for x in range(3, 6)]))])
    return E


C.cpp('c26.cpp', secs=(12, 80))
run(C)
