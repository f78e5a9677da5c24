P = dict(id='C08', title='The simple A* planner finds a shortest path, or nothing if no goal is reachable',
 statement='SimpleAStarPlanner::Plan returns a path that starts at the start, follows neighbour_fn at every step, visits no configuration twice and ends at the first configuration that satisfies goal_reached_fn; the path is empty exactly when no such configuration can be reached. With a consistent heuristic that is 0 at goals no path to a goal is cheaper (priorities that differ relatively by less than 1e-10 count as equal). Every configuration is expanded at most once, goals never, and "nodes explored" counts the expansions.',
 text='Every neighbour relation and pure callbacks, with cycles, self loops, parallel and zero-cost steps, several goals, inconsistent heuristics (path still valid), hash functions that collide.',
 why='No existing test runs this planner; stale queue entries, backpointers of expanded nodes and the tie rule of the comparator decide whether paths are valid and cheapest.',
 files=['include/arc_utilities/simple_astar_planner.hpp', 'include/arc_utilities/math_helpers.hpp'],
 mech=[('planner', 'SimpleAStarPlanner::Plan'), ('path extraction', 'SimpleAStarPlanner::ExtractPathBasic'), ('queue order', 'SimpleAStarPlanner::AStarComparator')],
 note='Proved for integer configurations: exact accounting of costs along backpointers, coverage of expanded nodes, least cost along an arbitrary path with a consistent heuristic, termination and result of the path extraction. Termination of the search loop and the statistics are only exercised.')
