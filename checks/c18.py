import itertools
import math
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA

TU = '''#include "/repo/include/arc_utilities/math_helpers.hpp"
namespace client {
inline double there(double a, double b) {
  return EigenHelpers::AddContinuousRevoluteValues(a, EigenHelpers::ContinuousRevoluteSignedDistance(a, b));
}
inline double back(double a, double b) { return EigenHelpers::ContinuousRevoluteDistance(b, a); }
inline bool own_end(double a, double b) { return EigenHelpers::CheckInContinuousRevoluteBounds(a, b, b); }
inline double ip(double a, double b) { return EigenHelpers::InterpolateContinuousRevolute(a, b, 0.5); }
inline bool own_start(double a, double b) { return EigenHelpers::CheckInContinuousRevoluteBounds(a, b, a); }
}
'''
C = Check('C18', tus=dict(main=TU),
          proof_scope='every function of the continuous revolute group, for all reals (angles of any number of turns), against the unique representative of an angle in '
                      '(-pi, pi]; pi is the double M_PI',
          assumptions=['double arithmetic is taken as exact real arithmetic; the harness allows 1e-9', 'std::fmod is the exact truncated remainder'])
Q = Fraction(math.pi)
P = RealVal(str(Q))
NS = 'EigenHelpers::'


# the unique turn counts of an angle: v - 2 pi K(v) in (-pi, pi], v - 2 pi T(v) in [0, 2 pi)
K = Function('turns_wrap', RealSort(), IntSort())
T = Function('turns_sweep', RealSort(), IntSort())
AX = {}


def wrap(v):
    w = v - 2 * P * ToReal(K(v))
    AX[w] = And(w > -P, w <= P)
    return w


def turn(v):
    w = v - 2 * P * ToReal(T(v))
    AX[w] = And(w >= 0, w < 2 * P)
    return w


def given(spec):
    """the definitions of the turn counts used by a specification"""
    def f(c):
        AX.clear()
        fs = spec(c)
        return dict(AX), fs
    return f


def whole(fs):
    """integer terms of the hypotheses that count turns"""
    out, seen, todo = {}, set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if is_app(t):
            if t.sort() == IntSort() and (t.decl().eq(K) or t.decl().eq(T) or t.decl().name().startswith(('fmodn', 'remn'))):
                out[t.sexpr()] = t
            todo += t.children()
    return [out[k] for k in sorted(out)]


def instances(pc, ax):
    """the uniqueness of the turn count (proved in unit 'turn counts are unique'), for the combinations of the turn counts at hand"""
    base = whole(pc)[:4]
    out = []
    for w, a in ax.items():
        n = w.arg(1).children()[-1].arg(0)
        v = w.arg(0)
        for cs in itertools.product((-1, 0, 1), repeat=len(base)):
            for j in (-1, 0, 1):
                m = Sum([IntVal(j)] + [k * b for k, b in zip(cs, base)])
                x = v - 2 * P * ToReal(m)
                out.append(Implies(And(x > -P, x <= P) if n.decl().eq(K) else And(x >= 0, x < 2 * P), n == m))
    return out


def proving(spec):
    def f(c):
        ax, fs = given(spec)(c)
        c.st1.assume(*(list(ax.values()) + instances(c.st1.pc, ax)))
        return fs
    return f


def using(spec):
    def f(c):
        ax, fs = given(spec)(c)
        return [('turn counts', And(*ax.values()))] + fs if ax else fs
    return f


def ab(x):
    return If(x < 0, -x, x)


def clip(t):
    return If(t < 0, RealVal(0), If(t > 1, RealVal(1), t))


def interp(c):
    a, b, t = c.arg(0), c.arg(1), clip(c.arg(2))
    d = wrap(b - a)
    r = c.ret
    on = lambda d: Or(*[r == wrap(a) + t * d + 2 * P * k for k in (-1, 0, 1)])
    return [('within half a turn', And(r >= -P, r <= P)),
            ('the given fraction of the shortest arc', Implies(d != P, on(d))),
            ('half a turn apart: the given fraction of one of the two arcs', Implies(d == P, Or(on(P), on(-P))))]


SPEC = dict(
    EnforceContinuousRevoluteBounds=lambda c: [('in (-pi, pi]', And(c.ret > -P, c.ret <= P)), ('the same angle', c.ret == wrap(c.arg(0)))],
    ContinuousRevoluteSignedDistance=lambda c: [('in (-pi, pi]', And(c.ret > -P, c.ret <= P)),
                                                ('leads from the first angle to the second', c.ret == wrap(c.arg(1) - c.arg(0)))],
    ContinuousRevoluteDistance=lambda c: [('length of the shortest arc', c.ret == ab(wrap(c.arg(1) - c.arg(0))))],
    AddContinuousRevoluteValues=lambda c: [('the sum as an angle', c.ret == wrap(c.arg(0) + c.arg(1)))],
    GetContinuousRevoluteRange=lambda c: [('counter-clockwise sweep', c.ret == turn(c.arg(1) - c.arg(0)))],
    CheckInContinuousRevoluteRange=lambda c: [('within the sweep', c.ret == (turn(c.arg(2) - c.arg(0)) <= c.arg(1)))],
    CheckInContinuousRevoluteBounds=lambda c: [('within the sweep from start to end', c.ret == (turn(c.arg(2) - c.arg(0)) <= turn(c.arg(1) - c.arg(0))))],
    InterpolateContinuousRevolute=interp)


def fin(c):
    return [('finite', And(*[And(c.arg(i) < RealVal(10) ** 15, c.arg(i) > -RealVal(10) ** 15) for i in range(len(c._args))]))]


def engine(prog, skip=()):
    E = Engine(prog)
    for n, s in SPEC.items():
        if n not in skip:
            E.contracts[prog.fn(NS + n)['id']] = Contract(post=using(s))
    return E


for n_, s_ in SPEC.items():
    def mk(n, s):
        @C.unit(n)
        def _(prog):
            E = engine(prog, (n,))
            E.verify(prog.fn(NS + n), pre=fin, post=proving(s))
            return E
    mk(n_, s_)


@C.unit('laws')
def _(prog):
    E = engine(prog)
    E.verify(prog.fn('client::there'), pre=fin, post=proving(lambda c: [('adding the signed distance reaches the other angle', c.ret == wrap(c.arg(1)))]))
    E.verify(prog.fn('client::back'), pre=fin, post=proving(lambda c: [('distance is symmetric', c.ret == ab(wrap(c.arg(1) - c.arg(0))))]))
    E.verify(prog.fn('client::own_end'), pre=fin, post=proving(lambda c: [('the end is in the sweep', c.ret)]))
    E.verify(prog.fn('client::own_start'), pre=fin, post=proving(lambda c: [('the start is in the sweep', c.ret)]))
    return E


@C.unit('turn counts are unique')
def _(prog):
    E = Engine(prog)
    v, (m, n) = Real('v'), Ints('m n')
    E.lemma(State(), 'two whole numbers of turns that leave an angle in the same half-open turn are equal',
            Implies(And(v - 2 * P * ToReal(m) > -P, v - 2 * P * ToReal(m) <= P, v - 2 * P * ToReal(n) > -P, v - 2 * P * ToReal(n) <= P), m == n))
    E.lemma(State(), 'the same for sweeps',
            Implies(And(v - 2 * P * ToReal(m) >= 0, v - 2 * P * ToReal(m) < 2 * P, v - 2 * P * ToReal(n) >= 0, v - 2 * P * ToReal(n) < 2 * P), m == n))
    return E


C.cpp('c18.cpp', secs=(20, 150), opt='-O2')

if __name__ == '__main__':
    run(C)
