P = dict(id='C29', title='RRT trees stay linked and the returned paths follow them',
 statement='CheckTreeLinkage is true exactly when every node is initialized, its parent exists and lists it as a child, and its children exist and name it as their parent. From a linked tree (otherwise invalid_argument) the planners keep the given nodes and add each propagated state as a child of the state it was propagated from, so that the tree stays linked. They return one path per goal node (tree nodes the goal check accepts, no others), from a root along the tree to that node; the bidirectional planner returns one path per bridge between connected states of the two trees, from the start root over the bridge to the goal root.',
 text='All trees, states, callbacks and sequences of samples, for both planners.',
 why='No test builds a planner (the header did not even compile); linkage, parent offsets and bridge orientation matter only after several extensions from both trees.',
 files=['include/arc_utilities/simple_rrt_planner.hpp'],
 mech=[('linkage check', 'SimpleHybridRRTPlanner::CheckTreeLinkage'), ('single tree', 'SimpleHybridRRTPlanner::PlanMultiPath'), ('paths', 'ExtractSolutionPaths / ExtractSolutionPath'), ('two trees', 'SimpleHybridBiRRTPlanner::PlanMultiPath'), ('child lists', 'AddChildIndex / RemoveChildIndex')],
 observe=['trees', 'returned paths', 'callbacks', 'exceptions', 'statistics'],
 note='Loop invariants over trees of any size with ghost index arrays for the paths and ghost inverse of the goal list; callbacks are uninterpreted. The wrappers that build trees themselves, the statistics and saving of states are checked in a bounded run.')
