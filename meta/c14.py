P = dict(id='C14', title="The dynamic hashed voxel grid reads back what was written, by cell and by chunk",
 statement='DynamicSpatialHashedVoxelGrid divides space into chunks of cells by the location in the grid frame. SetCellValue changes the cell of the location and no other value, turning an absent or whole-value chunk into a chunk of cells first; SetChunkValue gives every cell of the chunk the value; other chunks never change. A read returns the value last written to that cell or chunk, says which of the two it was, and returns the default value and NOT_FOUND where nothing was stored; the coordinate and vector forms agree, and each stored chunk reports the middle and size of its elements.',
 over=['inputs', 'histories'], text='All grid frames, cell sizes, chunk shapes, locations on both sides of the origin, and sequences of cell and chunk writes.',
 why='No existing test uses the class; errors appear only after particular sequences of cell and chunk writes, or in chunks that are not cubic.',
 files=['include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp'],
 mech=[('chunk lookup', 'DynamicSpatialHashedVoxelGrid::GetContainingChunkRegion'), ('cell lookup', 'DynamicSpatialHashedVoxelGridChunk::GetLocationDataIndex'),
       ('writes', 'DynamicSpatialHashedVoxelGrid::SetCellValue, SetChunkValue'), ('reads', 'DynamicSpatialHashedVoxelGrid::GetImmutable, GetMutable'), ('construction', 'constructors and Initialize')],
 observe=['values', 'FOUND_STATUS', 'SET_STATUS', 'stored chunks'],
 note='Proved over the reals for every state that satisfies the class invariant, which each operation keeps. Machine rounding at chunk faces is outside the statement.')
