P = dict(id='C12', title='A location belongs to the voxel whose box contains it, in any grid frame',
 statement='VoxelGrid maps a location to the index of the cell whose box contains it, on both sides of the origin and for every rigid origin transform, so a location is in bounds exactly when it lies in the box of the grid. The location of a cell is the middle of its box and maps back to that cell. Reading and writing by location is reading and writing the cell of that location, in every form (3-vector, 4-vector, coordinates).',
 text='All grid frames, cell sizes, cell indices and locations (real numbers).',
 why='No existing test builds a voxel grid; rounding errors appear only at negative coordinates, axis mix-ups only in grids that are not cubic or are rotated.',
 files=['include/arc_utilities/voxel_grid.hpp'],
 mech=[('location to index', 'VoxelGrid::PointInFrameToGridIndex*, LocationToGridIndex*, LocationInBounds*'), ('index to location', 'VoxelGrid::GridIndexToLocation, GridIndexToLocationGridFrame'),
       ('access by location', 'VoxelGrid::GetImmutable3d/4d, GetMutable3d/4d, SetValue3d/4d and the coordinate forms'), ('frame', 'VoxelGrid::UpdateOriginTransform')],
 observe=['indices', 'locations', 'cell values', 'flags'],
 note='Proved over the reals; machine rounding at cell faces is outside the statement (the harness keeps a relative distance of 0.001 cells from faces).')
