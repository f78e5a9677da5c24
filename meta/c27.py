P = dict(id='C27', title='Projections, distances to lines, planes and sets, and clamps are exact',
 statement='VectorProjection and VectorRejection split a vector into a multiple of the base and a rest perpendicular to it; projections to planes and Hyperplane remove exactly the normal part, projected points lie on the plane, and DistanceToLine and the plane distances equal the Euclidean ones for every position of the data and any length of the direction vector. Distance matrices, distances to a set and between sets are the pairwise Euclidean distances and ClosestPointInSet names a point no other is closer than; angles lie in [0, pi] and weighted products equal their sums. ClampNorm leaves vectors within the bound unchanged and scales longer ones exactly to it, SafeNormal leaves zero alone, Equal3d/4d and CloseEnough compare every component, and pyramids built from cones are regular with edges on the cone for every direction.',
 text='All real vectors (zero, tiny, parallel, far from the origin) and every number of points.',
 why='The existing tests sample a few vectors; degenerate bases, duplicates, unnormalised directions and points far away are where such code breaks.',
 files=['include/arc_utilities/eigen_helpers.hpp'],
 mech=[('projections', 'EigenHelpers::VectorProjection, VectorRejection, VectorProjectionToPlane'), ('lines and planes', 'EigenHelpers::DistanceToLine, Hyperplane, FitPlaneToPoints, ConvertConeToPyramid'),
       ('point sets', 'CalculateSquaredDistanceMatrix, CalculateDistanceToSet, ClosestPointInSet, SquaredDistancesBetweenPointSets'), ('norms and comparisons', 'ClampNorm, SafeNormal, Equal3d, CloseEnough, WeightedDotProduct')],
 note='Proved over the real numbers; dot products of vectors of dynamic length are defined sums whose algebra (bilinear, symmetric, Cauchy-Schwarz) is proved by induction. ConvertConeToPyramid, FitPlaneToPoints and the value of AngleDefinedByPoints are only checked on the compiled code (bounded).')
