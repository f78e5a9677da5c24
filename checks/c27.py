import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA
from lib import vdot, tdot, expand

TU = '''#include "/repo/include/arc_utilities/eigen_helpers.hpp"
inline void use() { using namespace EigenHelpers; typedef std::vector<double> V; V v; Eigen::Vector3d a, b; Eigen::VectorXd x; Eigen::Vector4d q; Eigen::Vector2d p;
typedef Eigen::Matrix<double, 3, Eigen::Dynamic> M;  M m; VectorVector3d vv; Eigen::Isometry3d t;
Equal3d(a, a); Equal4d(q, q); CloseEnough(p, p, .1); CloseEnough(a, a, .1); CloseEnough(vv, vv, .1); IsApprox(vv, vv); ClampNorm(a, 1.0); ClampNorm(x, 1.0); TransformData(t, vv);
SafeNormal(x); SquaredDistance(x, x); Distance(x, x);
CalculateSquaredDistanceMatrix(m); CalculateDistanceMatrix(m); CalculateSquaredDistanceToSet(m, a); CalculateDistanceToSet(m, a); ClosestPointInSet(m, a); SquaredDistancesBetweenPointSets(m, m);
VectorProjection(a, a); VectorRejection(a, a); VectorProjectionToPlane(a, a, a); VectorProjection(x, x); VectorRejection(x, x); DistanceToLine(a, a, a); ConvertConeToPyramid(a, .5); AngleDefinedByPoints(a, a, a);
WeightedDotProduct(x, x, x); WeightedSquaredNorm(x, x); WeightedNorm(x, x); WeightedCosineAngleBetweenVectors(x, x, x); WeightedAngleBetweenVectors(x, x, x);
Hyperplane h(x, x); h.GetDimensionality(); h.GetOrigin(); h.GetNormal(); h.GetNormedDotProduct(x); h.GetRawDotProduct(x); h.RejectVectorOntoPlane(x); h.GetSquaredDistanceToPlane(x); h.GetDistanceToPlane(x); h.ProjectVectorOntoPlane(x); h.ProjectPointOntoPlane(x);
}
'''
C = Check('C27', tus=dict(main=TU),
          proof_scope='Vector2d, Vector3d, 3 x n point sets and VectorXd of any length; dot products of vectors of dynamic length are defined sums',
          assumptions=['double arithmetic is taken as exact real arithmetic; the harness allows rounding', "Eigen's element-wise operations, dot products, norms, column-wise reductions and minCoeff do what they are documented to",
                       'acos is taken as a function with values in [0, pi]', 'ConvertConeToPyramid is only bounded (harness)'])
I, R = IntSort(), RealSort()
i, j, k = Ints('i j k')
NS = 'EigenHelpers::'
V2, V3, VX, VV3 = 'Eigen::Matrix<double, 2, 1>', 'Eigen::Matrix<double, 3, 1>', 'Eigen::Matrix<double, -1, 1>', 'std::vector<Eigen::Matrix<double, 3, 1>'


def pick(prog, name, *tys):
    fs = [f for f in prog.find(NS + name) if len(f['p']) == len(tys) and all(prog.ty(p['t']).deref().s.startswith(t) for t, p in zip(tys, f['p']))]
    if len(fs) != 1:
        raise Undecided(f'{name}{tys}: {len(fs)} overloads')
    return fs[0]


def ab(x):
    return If(x >= 0, x, -x)


def col(v):
    return [r[0] for r in v.e]


def sq(v):
    return sum([x * x for x in v], RealVal(0))


def dot(a, b):
    return sum([x * y for x, y in zip(a, b)], RealVal(0))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def el(m, r, c=0):
    return Select(Select(m.arr, r), c)


def at(v, k):
    return Select(v.arr, k)


@C.unit('sums of products')
def _(prog):
    """the facts about dot products of vectors of any length that the contracts of Eigen use (lib.vdot)"""
    E = Engine(prog)
    f = prog.find(NS + 'SafeNormal')[0]
    E.target, E.target_id = 'dot product (definition)', f['id']
    D = Function('dot_of', I, I, I, R)        # dot_of(a, b, n): the sum over the first n elements of a_i b_i; vectors are numbered
    x = Function('element', I, I, R)
    a, b, c, d, n = Ints('a b c d n')
    s, t = Reals('s t')
    defn = ForAll([a, b, n], And(D(a, b, 0) == 0, Implies(n >= 0, D(a, b, n + 1) == D(a, b, n) + x(a, n) * x(b, n))), patterns=[D(a, b, n + 1)])
    inst = lambda a, b: And(D(a, b, 0) == 0, D(a, b, n + 1) == D(a, b, n) + x(a, n) * x(b, n))
    st = State()
    st.assume(n >= 0)
    comb = x(c, n) == s * x(a, n) + t * x(b, n)
    lin = lambda m: D(c, d, m) == s * D(a, d, m) + t * D(b, d, m)
    E.lemma(st, 'bilinear: base', Implies(And(inst(c, d), inst(a, d), inst(b, d)), lin(IntVal(0))))
    E.lemma(st, 'bilinear: step', Implies(And(inst(c, d), inst(a, d), inst(b, d), comb, lin(n)), lin(n + 1)))
    E.lemma(st, 'symmetric: base', Implies(And(inst(a, b), inst(b, a)), D(a, b, 0) == D(b, a, 0)))
    E.lemma(st, 'symmetric: step', Implies(And(inst(a, b), inst(b, a), D(a, b, n) == D(b, a, n)), D(a, b, n + 1) == D(b, a, n + 1)))
    E.lemma(st, 'not negative: base', Implies(inst(a, a), D(a, a, 0) >= 0))
    E.lemma(st, 'not negative: step', Implies(And(inst(a, a), D(a, a, n) >= 0), D(a, a, n + 1) >= 0))
    aa, abp, bb = Reals('aa ab bb')       # from not negative and bilinear: |a - t b|^2 = aa - 2 t ab + t^2 bb >= 0 for every t
    q = lambda t: aa - 2 * t * abp + t * t * bb >= 0
    E.lemma(st, 'Cauchy-Schwarz', Implies(And(aa >= 0, bb >= 0, Implies(bb != 0, q(abp / bb)), Implies(And(bb == 0, abp != 0), q((aa + 1) / (2 * abp)))), abp * abp <= aa * bb))
    w, y = Ints('w y')
    T = Function('weighted_of', I, I, I, I, R)
    wi = lambda a, b: And(T(a, w, b, 0) == 0, T(a, w, b, n + 1) == T(a, w, b, n) + x(a, n) * x(w, n) * x(b, n))
    E.lemma(st, 'weighted, not negative: step', Implies(And(wi(a, a), x(w, n) >= 0, T(a, w, a, n) >= 0), T(a, w, a, n + 1) >= 0))
    p, q2, r2 = Reals('p q r')
    # |a - t b|_w^2 >= 0 for the same reason, so Cauchy-Schwarz holds for the weighted product too
    E.lemma(st, 'weighted, bilinear: step', Implies(And(wi(c, d), wi(a, d), wi(b, d), comb, T(c, w, d, n) == s * T(a, w, d, n) + t * T(b, w, d, n)), T(c, w, d, n + 1) == s * T(a, w, d, n + 1) + t * T(b, w, d, n + 1)))
    return E


@C.unit('comparisons')
def _(prog):
    E = Engine(prog)
    for n, d in (('Equal3d', 3), ('Equal4d', 4)):
        E.verify(prog.find(NS + n)[0], pre=lambda c: [], post=lambda c: [('equal', c.ret == And(*[c.arg(0).e[x][0] == c.arg(1).e[x][0] for x in range(d)]))])
    near = lambda a, b, t: And(*[ab(x - y) <= ab(t) for x, y in zip(a, b)])
    for T in (V2, V3):
        E.verify(pick(prog, 'CloseEnough', T, T, 'double'), name='CloseEnough(%s)' % T, pre=lambda c: [], post=lambda c: [('close', c.ret == near(col(c.arg(0)), col(c.arg(1)), c.arg(2)))])
    pt = lambda v, k: col(E.S.unpack(v.ty.velem, at(v, k)))
    g = lambda c, k: near(pt(c(0), k), pt(c(1), k), c(2))
    E.verify(pick(prog, 'CloseEnough', VV3, VV3, 'double'), name='CloseEnough(points)', pre=lambda c: [],
             post=lambda c: [('close', c.ret == And(c.arg(0).len == c.arg(1).len, ForAll([i], Implies(And(0 <= i, i < c.arg(0).len), g(c.arg, i)))))],
             loops=[Loop(lambda L: [('position', And(0 <= L['idx'], L['idx'] <= L.argv(0).len)), ('close so far', FA([i], Implies(And(0 <= i, i < L['idx']), g(L.argv, i)), at(L.argv(0), i), at(L.argv(1), i)))],
                         decreases=lambda L: L.argv(0).len - L['idx'])])
    return E


@C.unit('norms')
def _(prog):
    E = Engine(prog)
    def clamp(c, x, r):
        m = c.arg(1)
        n = E.fresh('norm', R)
        c.st1.assume(n >= 0, n * n == sq(x))
        return [('shape', And(c.ret.rows == 3, c.ret.cols == 1)), ('short vectors stay', Implies(sq(x) <= m * m, And(*[y == z for y, z in zip(x, r)]))),
                ('long vectors are scaled to the bound', Implies(sq(x) > m * m, And(*[z * n == y * m for y, z in zip(x, r)])))]

    E.verify(pick(prog, 'ClampNorm', V3, 'double'), name='ClampNorm(Vector3d)', pre=lambda c: [('positive bound', c.arg(1) > 0)],
             post=lambda c: clamp(c, col(c.arg(0)), [el(c.ret, x) for x in range(3)]))

    def long(c):
        x, m = c.arg(0), c.arg(1)
        r = c.ret
        n = x.rows
        xx, rr = vdot(E, c.st1, x.arr, x.arr, n), vdot(E, c.st1, r.arr, r.arr, n)
        return [('shape', And(r.rows == n, r.cols == 1)), ('short vectors stay', Implies(xx <= m * m, FA([i], Implies(And(0 <= i, i < n), el(r, i) == el(x, i)), el(r, i)))),
                ('long vectors are scaled to the bound', Implies(xx > m * m, rr == m * m)), ('never longer than the bound', rr <= m * m), ('same direction', vdot(E, c.st1, r.arr, x.arr, n) >= 0)]
    E.verify(pick(prog, 'ClampNorm', VX, 'double'), name='ClampNorm(VectorXd)', pre=lambda c: [('positive bound', c.arg(1) > 0)], post=long)

    def safe(c):
        x, r = c.arg(0), c.ret
        n = x.rows
        xx, rr = vdot(E, c.st1, x.arr, x.arr, n), vdot(E, c.st1, r.arr, r.arr, n)
        eps = RealVal(1) / (2 ** 52)
        return [('shape', r.rows == n), ('unit length', Implies(xx > eps * eps, rr == 1)), ('tiny vectors stay', Implies(xx <= eps * eps, FA([i], Implies(And(0 <= i, i < n), el(r, i) == el(x, i)), el(r, i)))),
                ('same direction', vdot(E, c.st1, r.arr, x.arr, n) >= 0)]
    E.verify(prog.find(NS + 'SafeNormal')[0], pre=lambda c: [], post=safe)
    return E


@C.unit('distances of vectors')
def _(prog):
    E = Engine(prog)

    def d2(c):
        x, y = c.arg(0), c.arg(1)
        v = lambda a, b: vdot(E, c.st1, a.arr, b.arr, x.rows)
        return v(y, y) - 2 * v(x, y) + v(x, x)
    same = lambda c: [('same size', c.arg(0).rows == c.arg(1).rows)]
    E.verify(pick(prog, 'SquaredDistance', VX, VX), name='SquaredDistance(VectorXd)', pre=same, post=lambda c: [('squared length of the difference', c.ret == d2(c)), ('not negative', c.ret >= 0)])
    E.verify(pick(prog, 'Distance', VX, VX), name='Distance(VectorXd)', pre=same, post=lambda c: [('length of the difference', c.ret * c.ret == d2(c)), ('not negative', c.ret >= 0)])

    def transform(t, p):
        return [dot(t.e[x][:3], p) + t.e[x][3] for x in range(3)]
    pt = lambda v, k: col(E.S.unpack(v.ty.velem, at(v, k)))
    done = lambda o, t, d, n: FA([i], Implies(And(0 <= i, i < n), And(*[x == y for x, y in zip(pt(o, i), transform(t, pt(d, i)))])), at(o, i))
    E.verify(prog.find(NS + 'TransformData')[0], pre=lambda c: [], post=lambda c: [('size', c.ret.len == c.arg(1).len), ('each point transformed', done(c.ret, c.arg(0), c.arg(1), c.ret.len))],
             loops=[Loop(lambda L: [('position', And(0 <= L.pos, L.pos <= L.argv(1).len)), ('one per point so far', L['retval'].len == L.pos), ('each transformed so far', done(L['retval'], L.argv(0), L.argv(1), L.pos))])])
    return E


@C.unit('point sets')
def _(prog):
    E = Engine(prog)
    S3 = 'Eigen::Matrix<double, 3, -1>'
    d2 = lambda a, x, b, y: sq([el(a, r, x) - el(b, r, y) for r in range(3)])
    inr = lambda x, n: And(0 <= x, x < n)

    def matrix(m, s, rows, full=True):
        return FA([i, j], Implies(And(rows(i, j), inr(i, s.cols), inr(j, s.cols)), el(m, i, j) == d2(s, i, s, j)), el(m, i, j))
    M = lambda L: L['squared_dist']
    n = lambda L: L.argv(0).cols
    f = pick(prog, 'CalculateSquaredDistanceMatrix', S3)
    shape = lambda L: ('shape', And(M(L).rows == n(L), M(L).cols == n(L)))
    E.verify(f, pre=lambda c: [('some point', c.arg(0).cols > 0)],
             post=lambda c: [('shape', And(c.ret.rows == c.arg(0).cols, c.ret.cols == c.arg(0).cols)), ('squared distances', matrix(c.ret, c.arg(0), lambda x, y: BoolVal(True)))],
             loops=[Loop(lambda L: [shape(L), ('position', And(0 <= L['i'], L['i'] <= n(L))), ('rows and columns so far', matrix(M(L), L.argv(0), lambda x, y: Or(x < L['i'], y < L['i'])))], decreases=lambda L: n(L) - L['i']),
                    Loop(lambda L: [shape(L), ('position', And(L['i'] + 1 <= L['j'], L['j'] <= n(L), 0 <= L['i'], L['i'] < n(L))),
                                    ('rows and columns so far', matrix(M(L), L.argv(0), lambda x, y: Or(x < L['i'], y < L['i'], And(x == L['i'], y < L['j']), And(y == L['i'], x < L['j']))))], decreases=lambda L: n(L) - L['j'])])
    E2 = Engine(prog)
    E2.contracts[f['id']] = Contract(pre=lambda c: [('some point', c.arg(0).cols > 0)], post=lambda c: [('shape', And(c.ret.rows == c.arg(0).cols, c.ret.cols == c.arg(0).cols)), ('squared distances', matrix(c.ret, c.arg(0), lambda x, y: BoolVal(True)))])
    rooted = lambda m, s: FA([i, j], Implies(And(inr(i, s.cols), inr(j, s.cols)), And(el(m, i, j) >= 0, el(m, i, j) * el(m, i, j) == d2(s, i, s, j))), el(m, i, j))
    E2.verify(pick(prog, 'CalculateDistanceMatrix', S3), pre=lambda c: [('some point', c.arg(0).cols > 0)], post=lambda c: [('shape', And(c.ret.rows == c.arg(0).cols, c.ret.cols == c.arg(0).cols)), ('distances', rooted(c.ret, c.arg(0)))])
    p = lambda c: col(c.arg(1))
    to = lambda c, x: sq([el(c.arg(0), r, x) - q for r, q in enumerate(p(c))])
    shape1 = lambda c: ('shape', And(c.ret.rows == c.arg(0).cols, c.ret.cols == 1))
    E2.verify(pick(prog, 'CalculateSquaredDistanceToSet', S3, V3), pre=lambda c: [], post=lambda c: [shape1(c), ('squared distances', FA([i], Implies(inr(i, c.arg(0).cols), el(c.ret, i) == to(c, i)), el(c.ret, i)))])
    E2.verify(pick(prog, 'CalculateDistanceToSet', S3, V3), pre=lambda c: [], post=lambda c: [shape1(c), ('distances', FA([i], Implies(inr(i, c.arg(0).cols), And(el(c.ret, i) >= 0, el(c.ret, i) * el(c.ret, i) == to(c, i))), el(c.ret, i)))])
    E3 = Engine(prog)
    E3.contracts[pick(prog, 'CalculateSquaredDistanceToSet', S3, V3)['id']] = Contract(post=lambda c: [shape1(c), ('squared distances', FA([i], Implies(inr(i, c.arg(0).cols), el(c.ret, i) == to(c, i)), el(c.ret, i), el(c.arg(0), 0, i)))])
    E3.verify(pick(prog, 'ClosestPointInSet', S3, V3), pre=lambda c: [('some point', c.arg(0).cols > 0)],
              post=lambda c: [('an index of the set', inr(c.ret, c.arg(0).cols)), ('no point is closer', FA([i], Implies(inr(i, c.arg(0).cols), to(c, c.ret) <= to(c, i)), el(c.arg(0), 0, i)))])
    pair = lambda m, A, B, w: FA([i, j], Implies(And(inr(i, A.cols), inr(j, w)), el(m, i, j) == d2(A, i, B, j)), el(m, i, j))
    D = lambda L: L['distances_sq']
    E4 = Engine(prog)
    E4.verify(pick(prog, 'SquaredDistancesBetweenPointSets', S3, S3), pre=lambda c: [], post=lambda c: [('shape', And(c.ret.rows == c.arg(0).cols, c.ret.cols == c.arg(1).cols)), ('squared distances', pair(c.ret, c.arg(0), c.arg(1), c.arg(1).cols))],
              loops=[Loop(lambda L: [('shape', And(D(L).rows == L.argv(0).cols, D(L).cols == L.argv(1).cols)), ('position', And(0 <= L['i'], L['i'] <= L.argv(1).cols)), ('columns so far', pair(D(L), L.argv(0), L.argv(1), L['i']))],
                          decreases=lambda L: L.argv(1).cols - L['i'])])
    return [E, E2, E3, E4]


@C.unit('projections')
def _(prog):
    E = Engine(prog)

    def proj(c):
        b, v = col(c.arg(0)), col(c.arg(1))
        r = [el(c.ret, x) for x in range(3)]
        return [('shape', And(c.ret.rows == 3, c.ret.cols == 1)), ('the multiple of the base', And(*[r[x] * sq(b) == dot(b, v) * b[x] for x in range(3)])),
                ('nothing on a zero base', Implies(sq(b) == 0, And(*[x == 0 for x in r])))]

    def rej(c):
        b, v = col(c.arg(0)), col(c.arg(1))
        r = [el(c.ret, x) for x in range(3)]
        return [('shape', And(c.ret.rows == 3, c.ret.cols == 1)), ('the rest', And(*[(v[x] - r[x]) * sq(b) == dot(b, v) * b[x] for x in range(3)])), ('perpendicular', Implies(sq(b) > 0, dot(r, b) == 0)),
                ('everything on a zero base', Implies(sq(b) == 0, And(*[x == y for x, y in zip(r, v)])))]
    E.verify(pick(prog, 'VectorProjection', V3, V3), name='VectorProjection(Vector3d)', pre=lambda c: [], post=proj)
    E.verify(pick(prog, 'VectorRejection', V3, V3), name='VectorRejection(Vector3d)', pre=lambda c: [], post=rej)

    same = lambda c: [('same size', c.arg(0).rows == c.arg(1).rows)]
    E.verify(pick(prog, 'VectorProjection', VX, VX), name='VectorProjection(VectorXd)', pre=same, post=lambda c: projX(E, c.st1, c.arg(0), c.arg(1), c.ret))
    E.verify(pick(prog, 'VectorRejection', VX, VX), name='VectorRejection(VectorXd)', pre=same, post=lambda c: rejX(E, c.st1, c.arg(0), c.arg(1), c.ret))
    return E


def projX(E, st, b, v, r):
    n = b.rows
    d = lambda x, y: vdot(E, st, x.arr, y.arr, n)
    return [('shape', And(r.rows == n)), ('the multiple of the base', FA([i], Implies(And(0 <= i, i < n), el(r, i) * d(b, b) == d(b, v) * el(b, i)), el(r, i))),
            ('the rest is perpendicular', Implies(d(b, b) > 0, d(r, b) == d(v, b))), ('nothing on a zero base', Implies(d(b, b) == 0, FA([i], Implies(And(0 <= i, i < n), el(r, i) == 0), el(r, i))))]



def rejX(E, st, b, v, r):
    n = b.rows
    d = lambda x, y: vdot(E, st, x.arr, y.arr, n)
    return [('shape', And(r.rows == n)), ('the rest', FA([i], Implies(And(0 <= i, i < n), (el(v, i) - el(r, i)) * d(b, b) == d(b, v) * el(b, i)), el(r, i))),
            ('perpendicular', d(r, b) == 0), ('everything on a zero base', Implies(d(b, b) == 0, FA([i], Implies(And(0 <= i, i < n), el(r, i) == el(v, i)), el(r, i))))]



@C.unit('planes and lines')
def _(prog):
    E = Engine(prog)

    def normal(st, view):
        n, u, w = [col(view(x)) for x in ('normal', 'unit_plane_vector1', 'unit_plane_vector2')]
        E.lemma(st, 'the normal of unit vectors', And(sq(n) == sq(u) * sq(w) - dot(u, w) * dot(u, w), dot(n, u) == 0, dot(n, w) == 0))
        E.lemma(st, 'the normal is not zero', sq(n) > 0)
        st.ghost['normal'] = n

    def plane(c):
        p, q, v = [col(c.arg(x)) for x in range(3)]
        n = c.st1.ghost['normal']
        r = col(c.ret)
        return [('in the plane', And(dot(n, p) == 0, dot(n, q) == 0, dot(r, n) == 0)), ('the normal is not zero', sq(n) > 0)] + [(f'only the normal part is removed {x}', y == 0) for x, y in enumerate(cross(sub(v, r), n))]
    nz = lambda *ks: (lambda c: [('not zero', And(*[sq(col(c.arg(x))) > 0 for x in ks]))])
    E.after = {'normal': normal}
    E.verify(prog.find(NS + 'VectorProjectionToPlane')[0], pre=nz(0, 1), post=plane, throws=lambda c: BoolVal(True))
    E.after = {}

    def line(c):
        p, u, x = [col(c.arg(y)) for y in range(3)]
        d = sub(x, p)
        f, s = c.ret.f['first'], c.ret.f['second']
        return [('displacement', s * s * sq(u) == dot(u, d) * dot(u, d)), ('sign of the displacement', s * dot(u, d) >= 0), ('distance', f * f + s * s == sq(d)), ('not negative', f >= 0)]
    E.verify(prog.find(NS + 'DistanceToLine')[0], pre=nz(1), post=line)

    def angle(c):
        a, b, d = [col(c.arg(y)) for y in range(3)]
        u, v = sub(a, b), sub(d, b)
        ac = E.ufs['acos']
        return [('range', And(c.ret >= 0, c.ret <= RealVal('3.141592653589794')))]
    E.verify(prog.find(NS + 'AngleDefinedByPoints')[0], pre=lambda c: [], post=angle)
    return E


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def rej3(c):
    b, v = col(c.arg(0)), col(c.arg(1))
    r = [el(c.ret, x) for x in range(3)]
    return [('shape', And(c.ret.rows == 3, c.ret.cols == 1)), ('the rest', And(*[(v[x] - r[x]) * sq(b) == dot(b, v) * b[x] for x in range(3)])), ('perpendicular', Implies(sq(b) > 0, dot(r, b) == 0)),
            ('everything on a zero base', Implies(sq(b) == 0, And(*[x == y for x, y in zip(r, v)])))]


@C.unit('weighted products')
def _(prog):
    E = Engine(prog)
    T = lambda c, x, w, y: tdot(E, c.st1, c.arg(x).arr, c.arg(w).arr, c.arg(y).arr, c.arg(0).rows)
    same = lambda n: (lambda c: ('same size', And(*[c.arg(x).rows == c.arg(0).rows for x in range(n)])))
    pos = lambda c, x, w: ('weighted squares are not negative', T0(c, x, w, x) >= 0)

    def T0(c, x, w, y):
        return tdot(E, c.st0, c.arg(x).arr, c.arg(w).arr, c.arg(y).arr, c.arg(0).rows)
    E.verify(prog.find(NS + 'WeightedDotProduct')[0], pre=lambda c: [same(3)(c)], post=lambda c: [('sum', c.ret == T(c, 0, 2, 1))])
    E.verify(prog.find(NS + 'WeightedSquaredNorm')[0], pre=lambda c: [same(2)(c)], post=lambda c: [('sum', c.ret == T(c, 0, 1, 0))])
    E.verify(prog.find(NS + 'WeightedNorm')[0], pre=lambda c: [same(2)(c), pos(c, 0, 1)], post=lambda c: [('root', And(c.ret >= 0, c.ret * c.ret == T(c, 0, 1, 0)))])
    strong = lambda c: [same(3)(c), ('both have a length', And(T0(c, 0, 2, 0) > 0, T0(c, 1, 2, 1) > 0)), ('Cauchy-Schwarz', T0(c, 0, 2, 1) * T0(c, 0, 2, 1) <= T0(c, 0, 2, 0) * T0(c, 1, 2, 1))]
    E.verify(prog.find(NS + 'WeightedCosineAngleBetweenVectors')[0], pre=strong,
             post=lambda c: [('range', And(-1 <= c.ret, c.ret <= 1)), ('cosine', c.ret * c.ret * T(c, 0, 2, 0) * T(c, 1, 2, 1) == T(c, 0, 2, 1) * T(c, 0, 2, 1)), ('sign', c.ret * T(c, 0, 2, 1) >= 0)])
    return E


@C.unit('hyperplanes')
def _(prog):
    E = Engine(prog)
    H = NS + 'Hyperplane::'
    fo, fn = 'plane_origin_', 'plane_normal_'
    E.verify([f for f in prog.find(H + 'Hyperplane') if len(f['p']) == 2][0], pre=lambda c: [('same size', c.arg(0).rows == c.arg(1).rows)],
             post=lambda c: [('origin', And(c.this1.f[fo].rows == c.arg(0).rows, FA([i], Implies(And(0 <= i, i < c.arg(0).rows), el(c.this1.f[fo], i) == el(c.arg(0), i)), el(c.this1.f[fo], i)))),
                             ('normal', And(c.this1.f[fn].rows == c.arg(1).rows, FA([i], Implies(And(0 <= i, i < c.arg(1).rows), el(c.this1.f[fn], i) == el(c.arg(1), i)), el(c.this1.f[fn], i))))])
    inv = lambda c: [('a plane', And(c.this.f[fo].rows == c.this.f[fn].rows))] + ([('same size', c.arg(0).rows == c.this.f[fo].rows)])

    def d(c, x, y):
        return vdot(E, c.st1, x.arr, y.arr, c.this.f[fo].rows)

    def raw(c, p=None):
        p = c.arg(0) if p is None else p
        return d(c, p, c.this.f[fn]) - d(c, c.this.f[fo], c.this.f[fn])

    def off2(c):
        p, o = c.arg(0), c.this.f[fo]
        return d(c, p, p) - 2 * d(c, p, o) + d(c, o, o)
    nn = lambda c: d(c, c.this.f[fn], c.this.f[fn])
    m = lambda n, post: E.verify(prog.find(H + n)[0], pre=inv, post=post)
    eps = RealVal(1) / (2 ** 52)
    m('GetRawDotProduct', lambda c: [('dot product of the offset and the normal', c.ret == raw(c))])
    m('GetNormedDotProduct', lambda c: [('dot product of the unit offset', Implies(off2(c) > eps * eps, And(c.ret * c.ret * off2(c) == raw(c) * raw(c), c.ret * raw(c) >= 0))), ('tiny offsets', Implies(off2(c) <= eps * eps, c.ret == raw(c)))])
    m('GetSquaredDistanceToPlane', lambda c: [('distance along the normal', c.ret * nn(c) == If(nn(c) > 0, raw(c) * raw(c), 0)), ('not negative', c.ret >= 0)])
    m('GetDistanceToPlane', lambda c: [('distance along the normal', c.ret * c.ret * nn(c) == If(nn(c) > 0, raw(c) * raw(c), 0)), ('not negative', c.ret >= 0)])
    m('RejectVectorOntoPlane', lambda c: projX(E, c.st1, c.this.f[fn], c.arg(0), c.ret))
    m('ProjectVectorOntoPlane', lambda c: rejX(E, c.st1, c.this.f[fn], c.arg(0), c.ret))

    def point(c):
        r, p, n = c.ret, c.arg(0), c.this.f[fn]
        return [('shape', r.rows == p.rows), ('on the plane', Implies(nn(c) > 0, raw(c, r) == 0)), ('moved along the normal', FA([i], Implies(And(0 <= i, i < p.rows), (el(p, i) - el(r, i)) * nn(c) == raw(c) * el(n, i)), el(r, i)))]
    m('ProjectPointOntoPlane', point)
    return E


C.cpp('c27.cpp', secs=(15, 90))
run(C)
