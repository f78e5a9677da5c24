P = dict(id='C07', title='Connected components are exactly the connected sets of an undirected graph',
 statement='For a graph in which every edge has an edge back, each node gets a component number from 1 to the reported count, every number is used, and two nodes have the same number exactly when they are connected by edges. Isolated nodes form their own component.',
 text='Every graph with symmetric edges, including empty graphs, isolated nodes, repeated edges and any number of components.',
 why='No existing test computes components; correctness depends on the node numbering and the order in which components are found.',
 files=['include/arc_utilities/graph.hpp'],
 mech=[('flood fill', 'Graph::markConnectedComponentUndirected'), ('outer loop with early stop by count', 'Graph::getConnectedComponentsUndirected')],
 note='Proved for every graph: marked sets are closed under edges (completeness) and contained in every closed set around the start (soundness); the early stop uses counting lemmas proved by induction in the check; termination proved.')
