P = dict(id='C06', title='A* searches return valid paths of the reported cost, optimal where promised',
 statement='PerformLazyAstar (both forms), PerformAstar and GenericAstarSearch return a path from start to goal along valid edges whose total cost is at most the reported cost, or an empty path with infinite cost exactly when no valid path exists. If the heuristic never overestimates (consistent or not) the reported cost is that of the cheapest valid path, with or without limit_pqueue_duplicates. Start and goal outside the graph or equal to each other throw std::invalid_argument; PerformAstar ignores edges marked INVALID or of infinite weight.',
 text='Every graph and callback with edge costs of at least 0, parallel edges, cycles and zero-cost edges, inconsistent heuristics (nodes reopened) and arbitrary ones.',
 why='No existing test runs these searches; reopening, duplicate queue entries and backpointers written at the wrong moment decide optimality and validity.',
 files=['include/arc_utilities/dijkstras.hpp', 'include/arc_utilities/arc_helpers.hpp'],
 mech=[('graph search', 'SimpleGraphAstar::PerformLazyAstar, PerformAstar'), ('generic search', 'arc_helpers::GenericAstarSearch'), ('path extraction', 'arc_helpers::ExtractAstarResult')],
 note='Proved: coverage invariant (every edge of an expanded node is covered by an expanded or queued entry), which yields completeness and optimality along an arbitrary admissible path; backpointers decrease (cost, time). Termination of the search loop is only exercised, not proved.')
