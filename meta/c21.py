P = dict(id='C21', title='Grid neighbours are exactly the valid rounded points one step away within bounds',
 statement='TwoDimensional8Connected and ThreeDimensional8Connected return exactly those of the 8 (26) points one step away from the configuration along any combination of axes, rounded by round_to_grid_fn, that differ from the configuration, lie between the rounded lower and upper corner of the configuration plus or minus one step clipped to the bounds, and satisfy validity_check_fn. Each direction contributes at most one neighbour, in order of x, then y, then z.',
 text='Every configuration (inside, on and outside the bounds), step, bounds and pair of callbacks, whether or not the rounding grid matches the step.',
 why='No existing test calls these functions; planners built on them are complete and stay in bounds only if no direction is lost and no bound is crossed.',
 files=['include/arc_utilities/get_neighbours.hpp'],
 mech=[('2D', 'GetNeighbours::TwoDimensional8Connected'), ('3D', 'GetNeighbours::ThreeDimensional8Connected')],
 note='Proved with loop invariants for double coordinates; coordinates are treated as real numbers, the run of the compiled code compares exactly.')
