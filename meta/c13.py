P = dict(id='C13', title='A voxel grid survives serialization and reports the bytes it used',
 statement='Serializing a voxel grid appends its encoding to the buffer, leaves what was there, and reports the bytes appended. Deserializing at the position of that encoding, also behind and in front of other data and into a grid that held something else, restores every property of the grid - cells, sizes, counts, strides, transforms, default and out-of-bounds values - and reports the same number of bytes.',
 text='All grids (also uninitialized ones), cell types with a faithful serializer, buffer contents and positions.',
 why='No existing test serializes a voxel grid; a field swapped or skipped shows only where fields differ or data follows.',
 files=['include/arc_utilities/voxel_grid.hpp', 'include/arc_utilities/serialization_eigen.hpp'],
 mech=[('format', 'VoxelGrid::SerializeSelf, DeserializeSelf, Serialize, Deserialize')],
 observe=['buffer', 'restored grid', 'byte counts'],
 note='Proved over any item serializer that meets its contract; the encodings of the parts enter through the contracts proved in C02 and C38.')
