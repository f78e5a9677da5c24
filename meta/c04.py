P = dict(id='C04', title='Graphs stay linked: every edge is recorded at both of its nodes',
 statement='A graph built through its public operations always has each edge in the outgoing list of its source and the incoming list of its target, with both nodes existing and different; adding an edge changes nothing but those two lists, and an illegal edge is refused without changing the graph. The linkage check accepts exactly the node lists with this property, construction from nodes accepts exactly those, and edge lookup returns the first edge between two nodes or reports that there is none.',
 over=['inputs', 'histories'], text='Every sequence of node and edge additions; every node list with arbitrary edge lists given to the check or the constructor.',
 why='Two small graphs are built in the existing tests; an illegal edge in an unusual position of an arbitrary node list is not sampled.',
 files=['include/arc_utilities/graph.hpp'],
 mech=[('linkage check', 'Graph::CheckGraphLinkage'), ('edge insertion', 'Graph::addEdgeBetweenNodes, addEdgesBetweenNodes'), ('lookup', 'GraphNode::getEdgeTo, Graph::getEdge, getReverseEdge')],
 note='CheckGraphLinkage proved equal to the quantified definition for all node lists; insertion, lookup and construction proved with full frames; preservation of linkage is a lemma over the contracts.')
