import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA

TU = '''#include "/repo/include/arc_utilities/math_helpers.hpp"
#include "/repo/include/arc_utilities/vector_math.hpp"
#include "/repo/include/arc_utilities/eigen_helpers.hpp"
inline void use() { using namespace EigenHelpers; typedef std::vector<double> V; typedef std::pair<double, double> P; V v; P p;
Interpolate(1.0, 2.0, .5); Interpolate(p, p, .5); Interpolate(v, v, .5); Interpolate(Eigen::Vector3d(), Eigen::Vector3d(), .5);
SquaredDistance(v, v); Distance(v, v); std::function<double(const int&, const int&)> f; CalculateTotalDistance(std::vector<int>(), f);
AverageStdVectorDouble(v, v); ComputeStdDevStdVectorDouble(v, 1.0); ComputeStdDevStdVectorDouble(v); AverageContinuousRevolute(v, v);
Abs(p); Multiply(p, 2.0); Multiply(p, p); Divide(p, 2.0); Divide(p, p); Add(p, p); Sub(p, p);
Abs(v); Multiply(v, 2.0); Multiply(v, v); Divide(v, 2.0); Divide(v, v); Add(v, 2.0); Add(v, v); Sub(v, 2.0); Sub(v, v); Sum(v); SquaredNorm(v); Norm(v);
SquaredDistance(Eigen::Vector2d(), Eigen::Vector2d()); SquaredDistance(Eigen::Vector3d(), Eigen::Vector3d()); Distance(Eigen::Vector2d(), Eigen::Vector2d()); Distance(Eigen::Vector3d(), Eigen::Vector3d());
AverageEigenVector3d(VectorVector3d(), v); CalculateTotalDistance(VectorVector3d()); CalculateIndividualDistances(VectorVector3d()); CalculateCumulativeDistances(VectorVector3d());
CloseEnough(1., 2., 3.); CloseEnough(v, v, 3.); Sign(1.0);
}
'''
C = Check('C20', tus=dict(main=TU), proof_scope='numbers, pairs, std::vector<double>, Vector2d and Vector3d', assumptions=['double arithmetic is taken as exact real arithmetic; the harness allows rounding'])
I, R = IntSort(), RealSort()
i, j = Ints('i j')
NS = 'EigenHelpers::'



def pick(prog, name, *tys):
    """the overload whose parameter types contain the given words"""
    fs = [f for f in prog.find(NS + name) if len(f['p']) == len(tys) and all(t in prog.ty(p['t']).deref().s for t, p in zip(tys, f['p']))]
    if len(fs) != 1:
        raise Undecided(f'{name}{tys}: {len(fs)} overloads')
    return fs[0]


VEC, PR, V2, V3, VV3, DBL = 'std::vector<double>', 'std::pair<double', 'Matrix<double, 2', 'Matrix<double, 3', 'std::vector<Eigen::Matrix<double, 3', 'double'


def ab(x):
    return If(x >= 0, x, -x)


def clampr(t):
    return If(t < 0, RealVal(0), If(t > 1, RealVal(1), t))


def at(v, k):
    return Select(v.arr, k)


SUMS = [0]


def total(term, n):
    """a prefix sum: S(0) = 0, S(k + 1) = S(k) + term(k) for k < n; returns the function and its definition"""
    SUMS[0] += 1
    S = Function('sum%d' % SUMS[0], I, R)
    return S, [('definition of a sum', And(S(0) == 0, FA([i], Implies(And(0 <= i, i < n), S(i + 1) == S(i) + term(i)), S(i + 1), term(i))))]


# ---------------------------------------------------------------- interpolation

@C.unit('Interpolate numbers and pairs')
def _(prog):
    E = Engine(prog)

    def spec(p, q, t, r):
        t = clampr(t)
        return [('weighted mean', r == p * (1 - t) + q * t), ('first end', Implies(t == 0, r == p)), ('second end', Implies(t == 1, r == q)),
                ('between', And(Implies(p <= q, And(p <= r, r <= q)), Implies(q <= p, And(q <= r, r <= p))))]
    f = [x for x in prog.find(NS + 'Interpolate') if prog.ty(x['p'][0]['t']).deref().s == 'double'][0]
    E.verify(f, name='Interpolate(double)', pre=lambda c: [], post=lambda c: spec(c.arg(0), c.arg(1), c.arg(2), c.ret))
    E.verify(pick(prog, 'Interpolate', PR, PR, DBL), name='Interpolate(pair)', pre=lambda c: [],
             post=lambda c: [(n + ' ' + k, x) for k in ('first', 'second') for n, x in spec(c.arg(0).f[k], c.arg(1).f[k], c.arg(2), c.ret.f[k])])
    E.verify(pick(prog, 'Interpolate', V3, V3, DBL), name='Interpolate(Vector3d)', pre=lambda c: [],
             post=lambda c: [(n + ' ' + str(k), x) for k in range(3) for n, x in spec(c.arg(0).e[k][0], c.arg(1).e[k][0], c.arg(2), c.ret.e[k][0])])
    return E


def elementwise(E, f, size_ok, term, **kw):
    """a function returning a vector: term(c, k) at k; an empty vector when the sizes differ"""
    E.verify(f, pre=lambda c: [], post=lambda c: [('size', c.ret.len == If(size_ok(c), c.arg(0).len, 0)),
                                                 ('elements', Implies(size_ok(c), FA([i], Implies(And(0 <= i, i < c.ret.len), at(c.ret, i) == term(c, i)), at(c.ret, i))))], **kw)


def out_loop(name, idx, term):
    def inv(L):
        v = L[name]
        k = L[idx]
        n = L.argv(0).len
        return [('size', v.len == n), ('position', And(0 <= k, k <= n)), ('elements so far', FA([i], Implies(And(0 <= i, i < k), at(v, i) == term(L, i)), at(v, i)))]
    return Loop(inv, decreases=lambda L: L.argv(0).len - L[idx])


@C.unit('Interpolate vectors')
def _(prog):
    E = Engine(prog)
    f = pick(prog, 'Interpolate', VEC, VEC, DBL)
    g = lambda arg: (lambda c, k: at(arg(c, 0), k) * (1 - clampr(arg(c, 2))) + at(arg(c, 1), k) * clampr(arg(c, 2)))
    elementwise(E, f, lambda c: c.arg(0).len == c.arg(1).len, g(lambda c, n: c.arg(n)), loops=[out_loop('interped', 'idx', g(lambda L, n: L.argv(n)))], name='Interpolate(vector)')
    # element-wise the scalar interpolation, so between the elements
    p, q, t = Reals('p q t')
    E.lemma(State(), 'the weighted mean lies between', Implies(And(0 <= t, t <= 1, p <= q), And(p <= p * (1 - t) + q * t, p * (1 - t) + q * t <= q)))
    return E


# ---------------------------------------------------------------- vectors and pairs

OPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Multiply': lambda a, b: a * b, 'Divide': lambda a, b: a / b}


@C.unit('element-wise operations on pairs')
def _(prog):
    E = Engine(prog)
    E.verify(pick(prog, 'Abs', PR), name='Abs(pair)', pre=lambda c: [], post=lambda c: [(k, c.ret.f[k] == ab(c.arg(0).f[k])) for k in ('first', 'second')])
    for o, op in OPS.items():
        E.verify(pick(prog, o, PR, PR), name=o + '(pair, pair)', pre=lambda c: [('no zero divisor', And(c.arg(1).f['first'] != 0, c.arg(1).f['second'] != 0))] if o == 'Divide' else [],
                 post=lambda c: [(k, c.ret.f[k] == op(c.arg(0).f[k], c.arg(1).f[k])) for k in ('first', 'second')])
        if o in ('Multiply', 'Divide'):
            E.verify([f for f in prog.find(NS + o) if PR in prog.ty(f['p'][0]['t']).deref().s and prog.ty(f['p'][1]['t']).deref().s == 'double'][0], name=o + '(pair, double)',
                     pre=lambda c: [('no zero divisor', c.arg(1) != 0)] if o == 'Divide' else [], post=lambda c: [(k, c.ret.f[k] == op(c.arg(0).f[k], c.arg(1))) for k in ('first', 'second')])
    return E


NAMES = {'Abs': 'absed', 'Multiply': 'multiplied', 'Divide': 'divided', 'Add': 'added', 'Sub': 'subed'}


@C.unit('element-wise operations on vectors')
def _(prog):
    E = Engine(prog)
    elementwise(E, pick(prog, 'Abs', VEC), lambda c: BoolVal(True), lambda c, k: ab(at(c.arg(0), k)), name='Abs(vector)', loops=[out_loop('absed', 'idx', lambda L, k: ab(at(L.argv(0), k)))])
    for o, op in OPS.items():
        nz = lambda c: [('no zero divisor', FA([i], at(c.arg(1), i) != 0, at(c.arg(1), i)))] if o == 'Divide' else []
        f = pick(prog, o, VEC, VEC)
        ok = lambda c: c.arg(0).len == c.arg(1).len
        E.verify(f, name=o + '(vector, vector)', pre=nz, post=lambda c: [('size', c.ret.len == If(ok(c), c.arg(0).len, 0)), ('elements', FA([i], Implies(And(0 <= i, i < c.ret.len), at(c.ret, i) == op(at(c.arg(0), i), at(c.arg(1), i))), at(c.ret, i)))],
                 loops=[out_loop(NAMES[o], 'idx', lambda L, k: op(at(L.argv(0), k), at(L.argv(1), k)))])
        f = [f for f in prog.find(NS + o) if VEC in prog.ty(f['p'][0]['t']).deref().s and prog.ty(f['p'][1]['t']).deref().s == 'double'][0]
        s = (lambda x: 1 / x) if o == 'Divide' else (lambda x: x)
        op2 = OPS['Multiply'] if o == 'Divide' else op
        E.verify(f, name=o + '(vector, double)', pre=lambda c: [('no zero divisor', c.arg(1) != 0)] if o == 'Divide' else [],
                 post=lambda c: [('size', c.ret.len == c.arg(0).len), ('elements', FA([i], Implies(And(0 <= i, i < c.ret.len), at(c.ret, i) == op2(at(c.arg(0), i), s(c.arg(1)))), at(c.ret, i)))],
                 loops=[out_loop(NAMES['Multiply' if o == 'Divide' else o], 'idx', lambda L, k: op2(at(L.argv(0), k), s(L.argv(1))))])
    return E


def fold(E, f, name, var, idx, term, n, result=lambda x: x, guard=None, other=None, nonneg=False, on_step=None, pre=None):
    """a function that adds term(arg, k) for every k below n"""
    S = {}

    def pre_(c):
        S['f'], d = total(lambda k: term(lambda a: c.arg(a), k), n(lambda a: c.arg(a)))
        return d + (pre(c) if pre else [])

    def inv(L):
        k = L[idx]
        m = n(lambda a: L.argv(a))
        return [('position', And(0 <= k, Or(k <= m, k == 0))), ('sum so far', L[var] == S['f'](k))] + ([('not negative', L[var] >= 0)] if nonneg else [])

    def post(c):
        m = n(lambda a: c.arg(a))
        g = guard(c) if guard else BoolVal(True)
        return [('sum', Implies(g, result(c)(c.ret, S['f'](If(m > 0, m, 0)))))] + ([('otherwise', Implies(Not(g), other(c)))] if guard else []) + ([('not negative', c.ret >= 0)] if nonneg else [])
    E.verify(f, name=name, pre=pre_, post=post, loops=[Loop(inv, decreases=lambda L: n(lambda a: L.argv(a)) - L[idx], on_step=on_step and (lambda L: on_step(L, E)))])
    return S


EQ = lambda c: (lambda r, s: r == s)
ROOT = lambda c: (lambda r, s: And(r >= 0, r * r == s))
same = lambda c: c.arg(0).len == c.arg(1).len
size = lambda a: a(0).len


@C.unit('sums and distances')
def _(prog):
    E = Engine(prog)
    sq = lambda x: x * x
    fold(E, pick(prog, 'Sum', VEC), 'Sum', 'sum', 'idx', lambda a, k: at(a(0), k), size, EQ)
    fold(E, pick(prog, 'SquaredNorm', VEC), 'SquaredNorm', 'squared_norm', 'idx', lambda a, k: sq(at(a(0), k)), size, EQ, nonneg=True)
    inf = lambda c: c.ret == E.INF
    fold(E, pick(prog, 'SquaredDistance', VEC, VEC), 'SquaredDistance', 'distance', 'idx', lambda a, k: sq(at(a(1), k) - at(a(0), k)), size, EQ, same, inf, nonneg=True)
    # the roots, against the contracts of the squared versions
    D = Function('squared_distance_of', E.S.sort(prog.ty(pick(prog, 'Distance', VEC, VEC)['p'][0]['t']).deref()), E.S.sort(prog.ty(pick(prog, 'Distance', VEC, VEC)['p'][0]['t']).deref()), R)
    E3 = Engine(prog)
    pk = lambda c, k: E3.S.pack(c.arg(k).ty, c.arg(k))
    E3.contracts[pick(prog, 'SquaredDistance', VEC, VEC)['id']] = Contract(post=lambda c: [('value', c.ret == D(pk(c, 0), pk(c, 1))), ('not negative', c.ret >= 0)], result=None)
    E3.contracts[pick(prog, 'SquaredNorm', VEC)['id']] = Contract(post=lambda c: [('value', c.ret == D(pk(c, 0), pk(c, 0))), ('not negative', c.ret >= 0)])
    E3.verify(pick(prog, 'Distance', VEC, VEC), pre=lambda c: [], post=lambda c: [('root', Implies(same(c), And(c.ret >= 0, c.ret * c.ret == D(pk(c, 0), pk(c, 1))))), ('sizes differ', Implies(Not(same(c)), c.ret == E3.INF))])
    E3.verify(pick(prog, 'Norm', VEC), pre=lambda c: [], post=lambda c: [('root', And(c.ret >= 0, c.ret * c.ret == D(pk(c, 0), pk(c, 0))))])
    for T, n in ((V2, 2), (V3, 3)):
        d2 = lambda c: sum(sq(c.arg(1).e[k][0] - c.arg(0).e[k][0]) for k in range(n))
        E3.verify(pick(prog, 'SquaredDistance', T, T), name=f'SquaredDistance(Vector{n}d)', pre=lambda c: [], post=lambda c: [('sum of squares', c.ret == d2(c)), ('not negative', c.ret >= 0)])
        E3.verify(pick(prog, 'Distance', T, T), name=f'Distance(Vector{n}d)', pre=lambda c: [], post=lambda c: [('root', And(c.ret >= 0, c.ret * c.ret == d2(c)))])
    return [E, E3]


@C.unit('path lengths')
def _(prog):
    E = Engine(prog)
    f = pick(prog, 'CalculateTotalDistance', 'std::vector<int>', 'function')
    it = prog.ty(f['p'][0]['t']).deref().args[0]
    dt = next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'float' and prog.types[x].get('w') == 64)
    S0 = State()
    fold(E, f, 'CalculateTotalDistance(callback)', 'total_dist', 'path_idx', lambda a, k: E.call_ufun(S0, a(1), [(it, at(a(0), k)), (it, at(a(0), k + 1))], dt), lambda a: a(0).len - 1, EQ)

    # paths of points: seg(k) is the distance between points k and k + 1
    seg, cum = Function('segment', I, R), Function('length_up_to', I, R)

    def pt(v, k):
        return [r[0] for r in E.S.unpack(v.ty.velem, at(v, k)).e]

    def pre(c):
        v = c.arg(0)
        d2 = sum((y - x) * (y - x) for x, y in zip(pt(v, i), pt(v, i + 1)))
        return [('distances of neighbours', FA([i], And(seg(i) >= 0, seg(i) * seg(i) == d2), seg(i))), ('definition of the length', And(cum(0) == 0, FA([i], Implies(i >= 0, cum(i + 1) == cum(i) + seg(i)), cum(i + 1), seg(i))))]

    def norm_step(get):
        def g(L):
            k = L.prev['idx'] - 1
            d = get(L, k + 1)
            s = seg(k)
            E.lemma(L.st, 'the segment added is as long as the distance of its points', And(d >= 0, d == s))
        return g
    n = lambda L: L.argv(0).len
    dec = lambda L: n(L) - L['idx']
    E.verify(pick(prog, 'CalculateTotalDistance', VV3), name='CalculateTotalDistance(points)', pre=pre, post=lambda c: [('length', c.ret == cum(If(c.arg(0).len > 0, c.arg(0).len - 1, 0)))],
             loops=[Loop(lambda L: [('position', And(1 <= L['idx'], Or(L['idx'] <= n(L), L['idx'] == 1))), ('length so far', L['distance'] == cum(L['idx'] - 1))], decreases=dec, on_step=norm_step(lambda L, k: L['delta']))])
    D = lambda L, k: at(L['distances'], k)
    E.verify(pick(prog, 'CalculateIndividualDistances', VV3), pre=pre, post=lambda c: [('size', c.ret.len == c.arg(0).len), ('distances', FA([i], Implies(And(0 <= i, i < c.ret.len), at(c.ret, i) == If(i == 0, 0, seg(i - 1))), at(c.ret, i)))],
             loops=[Loop(lambda L: [('position', And(1 <= L['idx'], L['idx'] <= n(L), L['distances'].len == n(L))), ('distances so far', FA([i], Implies(And(0 <= i, i < L['idx']), D(L, i) == If(i == 0, 0, seg(i - 1))), D(L, i)))], decreases=dec, on_step=norm_step(D))])
    E.verify(pick(prog, 'CalculateCumulativeDistances', VV3), pre=pre, post=lambda c: [('size', c.ret.len == c.arg(0).len), ('lengths', FA([i], Implies(And(0 <= i, i < c.ret.len), at(c.ret, i) == cum(i)), at(c.ret, i)))],
             loops=[Loop(lambda L: [('position', And(1 <= L['idx'], L['idx'] <= n(L), L['distances'].len == n(L))), ('lengths so far', FA([i], Implies(And(0 <= i, i < L['idx']), D(L, i) == cum(i)), D(L, i)))], decreases=dec, on_step=norm_step(lambda L, k: L['delta']))])
    return E


# ---------------------------------------------------------------- averages

def average(E, f, name, var, dim, comp):
    """weighted mean: average * sum of |weights| = sum of |weight| * item, between the bounds of the items with weight"""
    W, SW = Function('weight ' + name, I, R), Function('weight up to ' + name, I, R)
    V = [Function(f'item {k} {name}', I, R) for k in range(dim)]
    T = [Function(f'total {k} up to {name}', I, R) for k in range(dim)]
    lo, hi = [Real(f'low_{k}') for k in range(dim)], [Real(f'high_{k}') for k in range(dim)]
    p = Int('first_with_weight')

    def pre(c):
        v, w = c.arg(0), c.arg(1)
        n = v.len
        cs = comp(E, v, i)
        return [('as many weights as items, or none', And(n > 0, Or(w.len == 0, w.len == n))),
                ('some weight', And(0 <= p, p < n, W(p) > 0, FA([i], Implies(And(0 <= i, i < p), W(i) == 0), W(i)))),
                ('weights', FA([i], And(W(i) == If(w.len > 0, ab(at(w, i)), RealVal(1)), *[V[k](i) == cs[k] for k in range(dim)]), W(i), V[0](i))),
                ('sums', And(SW(0) == 0, *[x(0) == 0 for x in T], FA([i], Implies(i >= 0, And(SW(i + 1) == SW(i) + W(i), *[T[k](i + 1) == T[k](i) + W(i) * V[k](i) for k in range(dim)])), W(i), SW(i + 1)))),
                ('bounds', FA([i], Implies(And(0 <= i, i < n, W(i) > 0), And(*[And(lo[k] <= V[k](i), V[k](i) <= hi[k]) for k in range(dim)])), W(i)))]

    def zeros(k):
        return And(SW(k) == 0, *[x(k) == 0 for x in T])

    def skip(L):
        k = L['starting_idx']
        return [('position', And(0 <= k, k <= p)), ('nothing so far', zeros(k))]

    def skip_exit(L):
        k = L['starting_idx']
        E.lemma(L.st, 'the first item with weight', And(k < L.argv(0).len, Or(k == p, L.argv(1).len == 0), W(k) > 0))

    def inv(L):
        k = L['idx']
        a = comp.of(L[var])
        return [('position', And(1 <= k, k <= L.argv(0).len)), ('weight so far', And(L['weights_running_sum'] == SW(k), SW(k) > 0)),
                ('mean so far', And(*[a[x] * SW(k) == T[x](k) for x in range(dim)])), ('between', And(*[And(lo[x] <= a[x], a[x] <= hi[x]) for x in range(dim)]))]

    def step(L):
        k = L.prev['idx']
        a0, a1 = comp.of(L.prev[var]), comp.of(L[var])
        e = L['effective_weight']
        s = SW(k + 1)
        E.lemma(L.st, 'the effective weight', And(s == SW(k) + W(k), e * s == W(k), 0 <= e, e <= 1, L['weights_running_sum'] == s))
        for x in range(dim):
            E.lemma(L.st, f'the item added {x}', a1[x] == a0[x] + e * (V[x](k) - a0[x]))
            E.lemma(L.st, f'mean after the item {x}', a1[x] * s == a0[x] * SW(k) + W(k) * V[x](k))
            E.lemma(L.st, f'between after the item {x}', And(Implies(W(k) == 0, a1[x] == a0[x]), lo[x] <= a1[x], a1[x] <= hi[x]))

    def post(c):
        n = c.arg(0).len
        a = comp.of(c.ret)
        return [('weighted mean', And(SW(n) > 0, *[a[x] * SW(n) == T[x](n) for x in range(dim)])), ('between the items with weight', And(*[And(lo[x] <= a[x], a[x] <= hi[x]) for x in range(dim)]))]
    E.verify(f, name=name, pre=pre, post=post, loops=[Loop(skip, decreases=lambda L: L.argv(1).len - L['starting_idx'], on_exit=skip_exit), Loop(inv, decreases=lambda L: L.argv(0).len - L['idx'], on_step=step)])


class Num:
    def __call__(self, E, v, k):
        return [at(v, k)]

    def of(self, x):
        return [x]


class Pt:
    def __call__(self, E, v, k):
        return [r[0] for r in E.S.unpack(v.ty.velem, at(v, k)).e]

    def of(self, x):
        return [r[0] for r in x.e]


@C.unit('averages of numbers')
def _(prog):
    E = Engine(prog)
    average(E, pick(prog, 'AverageStdVectorDouble', VEC, VEC), 'AverageStdVectorDouble', 'average', 1, Num())
    return E


@C.unit('averages of points')
def _(prog):
    E = Engine(prog)
    average(E, pick(prog, 'AverageEigenVector', VV3, VEC), 'AverageEigenVector', 'avg_vector', 3, Pt())
    return E


@C.unit('standard deviation')
def _(prog):
    E = Engine(prog)
    root = lambda c: (lambda r, s: And(r >= 0, If(c.arg(0).len == 1, r == 0, r * r * ToReal(c.arg(0).len - 1) == s)))
    fold(E, pick(prog, 'ComputeStdDevStdVectorDouble', VEC, DBL), 'ComputeStdDevStdVectorDouble', 'stddev_sum', 'idx', lambda a, k: (at(a(0), k) - a(1)) * (at(a(0), k) - a(1)), size, root,
         pre=lambda c: [('not empty', c.arg(0).len > 0)], nonneg=True)
    return E


@C.unit('wrappers and comparisons')
def _(prog):
    E = Engine(prog)
    avg, sd = pick(prog, 'AverageStdVectorDouble', VEC, VEC), pick(prog, 'ComputeStdDevStdVectorDouble', VEC, DBL)
    pt = pick(prog, 'AverageEigenVector', VV3, VEC)
    vs, ps = (E.S.sort(prog.ty(f['p'][0]['t']).deref()) for f in (avg, pt))
    AV, SD, PT = Function('average_of', vs, vs, R), Function('deviation_of', vs, R, R), Function('point_average_of', ps, vs, E.S.sort(prog.ty(pt['r'])))
    pk = lambda v: E.S.pack(v.ty, v)
    E.contracts[avg['id']] = Contract(post=lambda c: [('value', c.ret == AV(pk(c.arg(0)), pk(c.arg(1)))), ('weights used', c.arg(1).len == WL[0])])
    E.contracts[sd['id']] = Contract(post=lambda c: [('value', c.ret == SD(pk(c.arg(0)), c.arg(1)))])
    E.contracts[pt['id']] = Contract(post=lambda c: [('value', E.S.pack(c.ret.ty, c.ret) == PT(pk(c.arg(0)), pk(c.arg(1))))])
    WL = [Int('weights_used')]
    E.verify(pick(prog, 'AverageContinuousRevolute', VEC, VEC), pre=lambda c: [], post=lambda c: [('average', c.ret == AV(pk(c.arg(0)), pk(c.arg(1))))])
    E.verify(pick(prog, 'AverageEigenVector3d', VV3, VEC), pre=lambda c: [], post=lambda c: [('average', E.S.pack(c.ret.ty, c.ret) == PT(pk(c.arg(0)), pk(c.arg(1))))])
    w = Const('no_weights', vs)
    E.verify(pick(prog, 'ComputeStdDevStdVectorDouble', VEC), name='ComputeStdDevStdVectorDouble(values)', pre=lambda c: [],
             post=lambda c: [('deviation from the unweighted average', And(WL[0] == 0, Exists([w], c.ret == SD(pk(c.arg(0)), AV(pk(c.arg(0)), w)))))])
    E.verify(pick(prog, 'Sign', DBL), pre=lambda c: [], post=lambda c: [('sign', c.ret == If(c.arg(0) > 0, 1, If(c.arg(0) < 0, -1, 0)))])
    close = lambda a, b, t: ab(a - b) <= ab(t)
    E.verify([f for f in prog.find(NS + 'CloseEnough') if prog.ty(f['p'][0]['t']).deref().s == 'double'][0], name='CloseEnough(double)', pre=lambda c: [], post=lambda c: [('distance at most the threshold', c.ret == close(c.arg(0), c.arg(1), c.arg(2)))])
    every = lambda c, n: FA([i], Implies(And(0 <= i, i < n), close(at(c(0), i), at(c(1), i), c(2))), at(c(0), i))
    E.verify(pick(prog, 'CloseEnough', VEC, VEC, DBL), name='CloseEnough(vector)', pre=lambda c: [], post=lambda c: [('every element', c.ret == And(same(c), every(c.arg, c.arg(0).len)))],
             loops=[Loop(lambda L: [('position', And(0 <= L['i'], L['i'] <= L.argv(0).len)), ('close so far', every(L.argv, L['i']))], decreases=lambda L: L.argv(0).len - L['i'])])
    return E


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c20.cpp')):
    C.cpp('c20.cpp', secs=(6, 60))

if __name__ == '__main__':
    run(C)
