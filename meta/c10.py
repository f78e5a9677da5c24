P = dict(id='C10', title='Distance matrices hold exactly the pairwise distances, in bounds, in every mode',
 statement='The distance matrix of one list is square of its size, and of two lists has one row per element of the first and one column per element of the second; entry (i, j) is the distance of the i-th to the j-th element. No element outside the matrix is written, and the parallel and serial modes agree.',
 over=['inputs', 'schedules'], text='All lists, also empty and of different sizes, and all distance functions (symmetric for the one-list form).',
 why='No existing test builds a distance matrix; out-of-bounds writes appear only when the two lists differ in size.',
 files=['include/arc_utilities/arc_helpers.hpp'],
 mech=[('matrix fill', 'arc_helpers::BuildDistanceMatrix (Serial, Parallel, one and two sets)')],
 observe=['returned matrix'],
 note='All four builders are proved for every input, OpenMP branches taken sequentially.')
