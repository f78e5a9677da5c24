P = dict(id='C30', title='Conversions between std::vector and Eigen values keep every element',
 statement='Converting between std::vector and Eigen vectors of any length, Vector3d, quaternions (stored as x, y, z, w) and vectors of fixed-size blocks keeps the number of elements, every value and the order: element d of block b is element b * LENGTH + d of the flat vector. No conversion reads or writes outside its argument, and converting there and back gives the original.',
 text='Vectors of every length (also not a multiple of the packet size), all values.',
 why='No existing test calls these conversions; errors show only for particular lengths, block counts or memory contents.',
 files=['include/arc_utilities/eigen_helpers.hpp', 'include/arc_utilities/eigen_std_conversions.hpp'],
 mech=[('plain vectors', 'EigenHelpers::StdVectorDoubleToEigenVectorXd, EigenVectorXdToStdVectorDouble, EigenVectorXToStdVector, StdVectorToEigenVectorX, ConvertTo'),
       ('blocks', 'VectorEigenVectorToEigenVectorX, EigenVectorXToVectorEigenVector, StdVectorXToVectorEigenVector'), ('quaternions', 'StdVectorDoubleToEigenQuaterniond, EigenQuaterniondToStdVectorDouble')],
 note='The bounds of every element access, range and memcpy are proof obligations; a ConvertTo that read eight times the size of the vector was found this way and repaired.')
