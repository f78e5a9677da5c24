P = dict(id='C28', title='PRM roadmaps join nearest neighbours; queries give shortest roadmap paths',
 statement='Adding a state joins it, in both directions and with the distance of each direction, to exactly those of its K nearest nodes whose edge is valid, or reuses a node at distance 0 unless duplicates are wanted; nothing else changes and linkage is kept. UpdateRoadMapEdges gives every edge, at both of its ends, its current distance or infinity if it is invalid, and refuses broken linkage. Queries add start and goal this way (to a copy, unless told otherwise) and return the states of a shortest path in that roadmap from the nearest start, to the nearest goal, with its length, or an empty path of infinite length if there is none.',
 over=['inputs', 'histories'], text='Every roadmap with legal edges, state type, K, pure distance (symmetric or not) and validity function, both directions, with and without duplicates.',
 why='The header has no test (it did not even compile); weights per direction, parallel edges and duplicate states need more than one sampled roadmap.',
 files=['include/arc_utilities/simple_prm_planner.hpp'],
 mech=[('growing the roadmap', 'AddNodeToRoadmap, ExtendRoadMap, BuildRoadMap'), ('revalidation', 'UpdateRoadMapEdges'), ('queries', 'QueryPath... and LazyQueryPath... functions')],
 observe=['roadmap', 'returned path and cost'],
 note='All functions but the random-walk query are proved, compiled without OpenMP; the A* based queries are proved to return, as states, what the search of C06 returns on the extended roadmap. Distances are finite and at least 0. When start and goal are the same node, A* based queries throw as C06 says and the Dijkstra based one returns that state twice.')
