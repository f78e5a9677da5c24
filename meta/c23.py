P = dict(id='C23', title='Hierarchical clustering partitions the data and honours its linkage',
 statement='Clustering returns a partition of the input: every item is in exactly one cluster and no cluster is empty. With complete link any two items of one cluster are within the limit; with single link items share a cluster exactly if they are connected by steps within the limit; no two returned clusters could still be merged, and the returned distance is the least link distance that remains (infinite if none).',
 text='All data sizes, all symmetric non-negative distance matrices and functions (infinite entries included), all limits (infinite included), both strategies, serial and threaded.',
 why='The existing tests use one data set; merging clusters with clusters, ties and limits at the extremes are unsampled.',
 files=['include/arc_utilities/simple_hierarchical_clustering.hpp', 'include/arc_utilities/arc_helpers.hpp'],
 mech=[('closest pair', 'GetClosestPair'), ('merge loop', 'Cluster'), ('distance matrix', 'BuildDistanceMatrixSerial/Parallel')],
 observe=['the returned clusters and distance'], over=['inputs', 'schedules'],
 note='Proved for the sequential code: GetClosestPair (eight nested loop invariants), merge loop with ghost owner and position of every item, extraction; single link against an arbitrary labelling that is constant along links. Termination is not proved; OpenMP threads are only run.')
