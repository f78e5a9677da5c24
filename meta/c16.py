P = dict(id='C16', title='Truncated-normal samples stay in bounds; random rotations are unit length',
 statement='Every sample of the truncated normal distribution lies within the bounds it was constructed with, for every kind of truncation, every mean and deviation, and every behaviour of the random source. Random rotations are unit quaternions, and Gaussian integrals over an interval are nonnegative, at most one and additive.',
 text='Every mean, positive deviation, bound pair and stream of random draws.',
 why='No existing test draws from the distribution; bounds must hold for every draw of the source, which sampling cannot show.',
 files=['include/arc_utilities/arc_helpers.hpp'],
 mech=[('case selection', 'TruncatedNormalDistribution constructor'), ('rejection loops', 'TruncatedNormalDistribution::Sample'), ('quaternion from uniforms', 'RandomRotationGenerator')],
 observe=['returned samples'],
 note='Partial correctness with the draws arbitrary in the support of the underlying distribution (termination of rejection sampling is probabilistic and not claimed). Doubles are reals; exp, sqrt, sin, cos by axioms listed in the evidence.')
