P = dict(id='C38', title='Eigen values survive serialization with a fixed layout',
 statement='SerializeEigen appends to the buffer the size headers of the dynamic dimensions (rows before columns, 8 bytes each) and the cells in column-major order, leaves what was there and reports the number of bytes, which SerializedSizeEigen predicts; an Isometry3d is its 4x4 matrix. DeserializeEigen, at the position of such an encoding and whatever follows it, returns the same value and the number of bytes read. This holds for every size, empty matrices included, and every content.',
 text='Vector3d, Vector6d, Vector7d, VectorXd, MatrixXd, Matrix3Xd, Matrix3Xf, MatrixXf and Isometry3d of every size and content, at every position of a buffer.',
 why='No test covers these functions; header order, scalar width, empty matrices and values at the end of a buffer differ per specialization.',
 files=['include/arc_utilities/serialization_eigen.hpp'],
 mech=[('encoding', 'SerializedSizeEigen / SerializeEigen'), ('decoding', 'DeserializeEigen specializations')],
 observe=['buffer', 'returned values and byte counts'],
 note='Dynamic matrices by quantified contracts over rows, columns and column-major positions; fixed sizes cell by cell. The contract of the Isometry3d functions is the one C13 uses.')
