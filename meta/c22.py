P = dict(id='C22', title='Dynamic time warping cost and Hausdorff distance are exact',
 statement='The warping cost of two sequences is the least total distance over all warping paths that align them from first to last element (infinite if exactly one of them is empty), and depends only on the two sequences and the distance function, not on what the same evaluator computed before. The Hausdorff distance is the largest distance from an element of the first set to its nearest element of the second.',
 text='All sequences and sets of any length, any non-negative pure distance function, any history of the evaluator, any number of threads.',
 why='The existing tests use one pair of sequences; ties between steps and reused evaluators are unsampled.',
 files=['include/arc_utilities/simple_dtw.hpp', 'include/arc_utilities/simple_hausdorff_distance.hpp'],
 mech=[('cost matrix and its borders', 'SimpleDTW::InitializeMatrix'), ('recurrence', 'SimpleDTW::EvaluateWarpingCost'), ('maximum of minima', 'SimpleHausdorffDistance::ComputeDistance')],
 observe=['the returned costs'], over=['inputs', 'histories', 'schedules'],
 note='Cost matrix borders are a class invariant, the recurrence is proved cell by cell and its optimality over warping paths by induction; Hausdorff is proved for the sequential loop. Real OpenMP threads are only run (bounded).')
