P = dict(id='C25', title='Path smoothing, resampling and upsampling keep the path and its budget',
 statement='ShortcutSmoothPath returns states of the given path in their order, from its first to its last, where every step is a step of the path or an edge the validity check accepts; it checks at most max_iterations edges, none after max_failed_iterations rejections. ResamplePath(Partial) keeps the first state of the range and cuts the step between each two neighbours into ceil(distance / resolution) equal parts given by the interpolation function (a step of length zero adds nothing); impossible ranges throw invalid_argument. UpsamplePath(Partial) returns exactly num_points states of the portion (the portion itself if it has as many already): every state of the portion in order, each segment cut into equal parts, always cutting the segment with the longest parts next.',
 text='All paths, ranges, resolutions and numbers of points, any distance, interpolation and validity function, any random draws.',
 why='No existing C++ test runs these functions; ties, zero-length steps, partial ranges and exhausted budgets decide whether the path is preserved.',
 files=['include/arc_utilities/path_utils.hpp'],
 mech=[('smoothing', 'ShortcutSmoothPath'), ('resampling', 'ResamplePathPartial / ResamplePath'), ('upsampling', 'UpsamplePathPartial / UpsamplePath')],
 observe=['returned paths', 'calls of the callbacks'],
 note='Proved for any callbacks and all lengths with a ghost map from the result to the given path, prefix sums of segment counts, and the heap order of the queue; the iteration budget is proved, the number of rejected checks is counted in the bounded run.')
