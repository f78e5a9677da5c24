import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA

TU = '''#include "/repo/include/arc_utilities/arc_helpers.hpp"
inline double client(double mean, double sd, double lo, double hi, arc_helpers::SplitMix64PRNG& g) {
  arc_helpers::TruncatedNormalDistribution d(mean, sd, lo, hi);
  return d(g);
}
inline void use() {
std::function<double()> f;
arc_helpers::RandomRotationGenerator::GenerateUniformRandomQuaternion(f);
arc_helpers::RandomRotationGenerator::GenerateUniformRandomEulerAngles(f);
arc_helpers::EvaluateTruncatedGaussianCDF(0, 0, 0, 0, 0); arc_helpers::EvaluateTruncatedGaussianPDF(0, 0, 0, 0, 0);
arc_helpers::IntegrateGaussian(0, 0, 0, 0); arc_helpers::IntegrateTruncatedGaussian(0, 0, 0, 0, 0, 0);
}
'''
C = Check('C16', tus=dict(main=TU),
          proof_scope='a sample of TruncatedNormalDistribution built with finite bounds and positive deviation lies between them (partial correctness, '
                      'real arithmetic); the random quaternion has unit norm and the Euler angles their ranges for every draw of the unit variable',
          assumptions=['std distributions return values of their support', 'double arithmetic is taken as exact real arithmetic (rounding of the last bits is '
                       'covered by the replay tolerance only)', 'infinite truncation bounds are searched by the replay harness (bounded)'])
SEL = lambda L: [('nothing', BoolVal(True))]


@C.unit('truncated normal stays in its bounds')
def _(prog):
    E = Engine(prog)

    def pre(c):
        m, s, lo, hi = [c.arg(i) for i in range(4)]
        big = RealVal(10) ** 20
        fin = lambda x: And(x < big, x > -big)
        return [('finite', And(fin(m), fin(s), fin(lo), fin(hi), s > RealVal('1/1000000000'))), ('ordered', lo < hi)]

    E.verify(prog.fn('client'), name='TruncatedNormalDistribution: construction and sampling', pre=pre,
             post=lambda c: [('within the bounds', And(c.ret >= c.arg(2), c.ret <= c.arg(3)))],
             loops=[Loop(SEL)] * 8)
    return E


def unit_var(E):
    E.nullary = {'uniform_unit_dist': lambda v: And(v >= 0, v < 1)}


@C.unit('random quaternion has unit norm')
def _(prog):
    E = Engine(prog)
    E.trig = True
    unit_var(E)
    E.verify(prog.fn('arc_helpers::RandomRotationGenerator::GenerateUniformRandomQuaternion'),
             post=lambda c: [('unit norm', Sum([r[0] * r[0] for r in c.ret.e]) == 1)])
    return E


@C.unit('random Euler angles stay in range')
def _(prog):
    E = Engine(prog)
    unit_var(E)
    P = RealVal('3.1415926535897936')
    E.verify(prog.fn('arc_helpers::RandomRotationGenerator::GenerateUniformRandomEulerAngles'),
             post=lambda c: [('roll', And(c.ret.e[0][0] >= -P, c.ret.e[0][0] <= P)), ('pitch', And(c.ret.e[1][0] >= -RealVal('1/1000000'), c.ret.e[1][0] <= 2 * P + RealVal('1/1000000'))),
                             ('yaw', And(c.ret.e[2][0] >= -P, c.ret.e[2][0] <= P))])
    return E


C.cpp('c16.cpp', secs=(25, 150), opt='-O2')

if __name__ == '__main__':
    run(C)
