P = dict(id='C26', title='Rotations, twists, roll-pitch-yaw and rotation distances are exact',
 statement='RotateVector and its reverse apply the rotation of any nonzero quaternion; Skew/Unskew and TwistHat/TwistUnhat are inverse, the adjoint moves twists between frames, ExpMatrixExact and ExpTwist give the matrix exponential of a rotation and of a twist, and TwistBetweenTransforms gives a twist whose exponential leads from the first transform to the second. RPY quaternions and transforms apply roll, pitch and yaw about x, y, z (URDF: z, y, x) and Euler angles compose to the rotation they came from. Distances between rotations are the angle between them (never NaN), and the transform distance mixes it with the Euclidean one by alpha.',
 text='All vectors, twists (zero and tiny rotation, zero translation), unit and scaled quaternions, angles in all quadrants.',
 why='The existing tests do not call these functions; sign, order and quadrant errors only show for combinations of several nonzero angles.',
 files=['include/arc_utilities/eigen_helpers.hpp'],
 mech=[('rotations', 'EigenHelpers::RotateVector, RotateVectorReverse, Distance(Quaterniond / Matrix3d / Isometry3d)'), ('twists', 'Skew, TwistHat, AdjointFromTransform, TransformTwist, ExpMatrixExact, ExpTwist, TwistBetweenTransforms'),
       ('roll, pitch, yaw', 'QuaternionFromRPY, QuaternionFromUrdfRPY, TransformFromRPY, EulerAnglesFrom..., TransformToRPY')],
 note='Identities over the reals, discharged by z3 and by a polynomial normal-form back end (engine/algebra.py). The logarithm in TwistBetweenTransforms and the transform distance are only bounded (harness). Two defects were repaired: TwistBetweenTransforms did not compile, and the matrix distance was NaN for equal rotations.')
