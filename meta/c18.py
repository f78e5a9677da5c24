P = dict(id='C18', title='Continuous revolute angles: wrapping, shortest distance, sweeps, interpolation',
 statement='Every angle maps to the one value in (-pi, pi] that denotes it; the signed distance between two angles is the shortest rotation that leads from the first to the second, so adding it to the first gives the second, and distances are symmetric. A sweep from start to end is the counter-clockwise rotation in [0, 2 pi) and contains exactly the angles it passes, and interpolation goes the given fraction along the shortest arc.',
 text='All real angles with any number of turns, all interpolation ratios (clamped to [0,1]), all sweeps.',
 why='The existing tests do not call these functions; errors show only when the shortest way crosses pi.',
 files=['include/arc_utilities/math_helpers.hpp'],
 mech=[('wrapping', 'EnforceContinuousRevoluteBounds'), ('shortest rotation', 'ContinuousRevoluteSignedDistance'), ('sweeps', 'GetContinuousRevoluteRange, CheckInContinuousRevoluteRange'), ('interpolation', 'InterpolateContinuousRevolute')],
 observe=['return values'],
 note='Proved for all reals with pi the double M_PI: postconditions are equations with the unique representative of an angle (whole turn counts, uniqueness proved as a lemma). Rounding is only searched (1e-9).')
