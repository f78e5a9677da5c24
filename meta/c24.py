P = dict(id='C24', title='K-means clustering ends in a fixed point of labels and centers',
 statement='K-means gives every item a label below the number of clusters; each item carries the label of its nearest returned center (the first one among equals), and each returned center is the average of exactly the items that carry its label, in input order. In the weighted version every item is averaged together with its own weight, and the number of centers never changes.',
 text='All data, distance and average functions, initial centers and random choices, with and without preliminary clustering.',
 why='The existing tests only print results; labels that do not match the returned centers, and weights of the wrong items, go unnoticed.',
 files=['include/arc_utilities/simple_kmeans_clustering.hpp'],
 mech=[('assignment', 'GetClosestCluster, PerformSingleClusteringIteration'), ('centers', 'ComputeClusterCenters, ComputeClusterCentersWeighted'), ('iteration', 'CheckForConvergence, Cluster, ClusterWeighted'), ('initial centers', 'Cluster(num_clusters)')],
 observe=['labels, centers, and the arguments of the average function'],
 note='Every function is under contract with ghost position maps for the groups; the fixed point is the loop invariant of Cluster at convergence. Termination depends on the average function and is not proved.')
