P = dict(id='C05', title='Dijkstra distances are exactly the shortest path lengths',
 statement='For a graph with nonnegative edge weights, PerformDijkstrasAlgorithm reports for every node the length of the shortest path along edges to the start node (infinity if there is none), 0 for the start, in both the distance list and the returned graph, which otherwise equals the input. The previous-node map gives for every reachable node the next node of a shortest path (so following it reaches the start), the start for itself, and -1 for unreachable nodes. A start index outside the graph throws std::invalid_argument.',
 text='Every linked graph: any node count, parallel edges, ties, zero and infinite weights, unreachable nodes, stale distances in the input graph.',
 why='The existing test checks one small graph; lazily deleted queue entries, ties and unreachable parts decide correctness.',
 files=['include/arc_utilities/dijkstras.hpp'],
 mech=[('search', 'SimpleDijkstrasAlgorithm::PerformDijkstrasAlgorithm'), ('queue order', 'SimpleDijkstrasAlgorithm::CompareIndexFn')],
 note='Proved: result is a feasible potential, above every feasible potential (so it is the greatest one, i.e. the shortest path lengths), with a tree of tight edges; termination by (unexplored nodes, queue length). Rounding of sums is ignored.')
