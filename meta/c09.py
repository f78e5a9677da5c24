P = dict(id='C09', title='K-nearest-neighbour search returns the K smallest distances with their indices',
 statement='For every item list, query, distance function and K, the search returns min(K, size) distinct valid indices, each with the distance of that item to the query, and no omitted item is closer than a returned one. The parallel search returns a result satisfying the same guarantee, for any number of threads.',
 over=['inputs', 'schedules'], text='Every item list (also empty), K (also 0 and beyond the size) and finite distance function; any OpenMP thread count.',
 why='No existing test covers the nearest-neighbour helpers; ties, K at the boundaries and the merge of per-thread results need all inputs.',
 files=['include/arc_utilities/arc_helpers.hpp'],
 mech=[('replacement of the worst retained candidate', 'arc_helpers::GetKNearestNeighborsSerial'), ('merge of per-thread results', 'GetKNearestNeighborsParallel')],
 observe=['returned index/distance pairs'],
 note='The serial search is proved for every input; the parallel one is proved with one thread (its merge code included), and run with several real threads in the replay harness (bounded, not counted as proof).')
