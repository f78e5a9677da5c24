P = dict(id='C20', title='Interpolation, averages, lengths and vector arithmetic compute what they name',
 statement='Interpolate returns the weighted mean of its ends (for numbers, pairs, std::vector, Eigen vectors) with the ratio clamped to [0, 1], so it lies between them and hits both; vectors of different sizes give an empty vector (infinite distance for Distance). The averages equal the mean weighted by absolute weights for any number of leading or inner zero weights and lie between the items that have weight; the sample standard deviation, sums, norms, distances, total, individual and cumulative path lengths equal their defining sums. Add, Sub, Multiply, Divide and Abs act element by element.',
 text='Every real input, vectors of every length (empty, one element, different sizes), every combination of zero, negative and positive weights, ratios outside [0, 1].',
 why='No existing test calls most of these; running weighted sums, clamping and the first and last elements are where such code breaks.',
 files=['include/arc_utilities/math_helpers.hpp', 'include/arc_utilities/vector_math.hpp', 'include/arc_utilities/eigen_helpers.hpp'],
 mech=[('interpolation', 'EigenHelpers::Interpolate'), ('averages', 'AverageStdVectorDouble, AverageEigenVector, ComputeStdDevStdVectorDouble'), ('lengths', 'CalculateTotalDistance, CalculateIndividualDistances, CalculateCumulativeDistances, Distance'), ('arithmetic', 'Abs, Add, Sub, Multiply, Divide, Sum')],
 note='Proved over the real numbers with loop invariants (the running mean times the running weight is the weighted sum); rounding is left to the run of the compiled code. Averages of rotations are not covered.')
