P = dict(id='C11', title='A voxel grid is an array of cells: reads, writes and resets touch the right ones',
 statement='Every constructor and Initialize form of VoxelGrid makes a grid with the given cell sizes, counts (or the counts that cover the given lengths), origin, default and out-of-bounds values, or throws if a size is not positive and finite. An index is in bounds exactly when each coordinate is below its cell count; reading gives the cell last written there (or the out-of-bounds value and false), and writing changes that cell and no other. Resets fill every cell, and whole-grid data is accepted only at the right length.',
 over=['inputs', 'histories'], text='All grid sizes, cell types, indices (negative and beyond the grid too), and sequences of operations.',
 why='No existing test builds a voxel grid; stride and bounds errors appear only in non-cubic grids and at particular cells.',
 files=['include/arc_utilities/voxel_grid.hpp'],
 mech=[('storage', 'VoxelGrid::GetDataIndex, AccessIndex, SetContents, HashDataIndex'), ('access', 'VoxelGrid::GetImmutable, GetMutable, SetValue, IndexInBounds (index forms)'),
       ('construction', 'VoxelGrid constructors, Initialize, CoreInitialize, SafetyCheckSizes'), ('whole grid', 'ResetWithDefault, ResetWithNewValue, ResetWithNewDefault, SetRawData')],
 observe=['cell values', 'success flags', 'sizes and counts', 'exceptions'],
 note='Proved for every size, index and cell value; sequences follow from the class invariant (each operation keeps it). All 16 constructors and 4 Initialize forms are under contract.')
