A='src/absolute_pose/methods.cpp'; R='src/relative_pose/methods.cpp'
AM='src/absolute_pose/modules/main.cpp'; RM='src/relative_pose/modules/main.cpp'; EP='src/absolute_pose/modules/Epnp.cpp'
AR='src/math/arun.cpp'; GJ='src/math/gauss_jordan.cpp'
ALL=['N02']
M=[
('r-kneip-rangefor','',[(AM,'  for( int i = 0; i < 4; i++ )\n  {\n    double cot_alpha =\n        (-f_1*p_1/f_2-realRoots[i]*p_2+d_12*b)/\n        (-f_1*realRoots[i]*p_2/f_2+p_1-d_12);\n\n    double cos_theta = realRoots[i];\n    double sin_theta = sqrt(1-pow(realRoots[i],2));',
 '  for( const double root : realRoots )\n  {\n    const double cot_alpha =\n        (-f_1*p_1/f_2-root*p_2+d_12*b)/\n        (-f_1*root*p_2/f_2+p_1-d_12);\n\n    const double cos_theta = root;\n    const double sin_theta = std::sqrt(1.0-root*root);')]),
('r-kneip-helper','',[(AM,'void\nopengv::absolute_pose::modules::p3p_kneip_main(','namespace { Eigen::Vector3d unit( const Eigen::Vector3d & v ) { return v.normalized(); }\nopengv::rotation_t rows3( const Eigen::Vector3d & a, const Eigen::Vector3d & b, const Eigen::Vector3d & c ) { opengv::rotation_t M; M << a.transpose(), b.transpose(), c.transpose(); return M; } }\nvoid\nopengv::absolute_pose::modules::p3p_kneip_main('),
 (AM,'  n1 = n1/n1.norm();\n','  n1 = unit(n1);\n'),(AM,'  rotation_t N;\n  N.row(0) = n1.transpose();\n  N.row(1) = n2.transpose();\n  N.row(2) = n3.transpose();\n','  const rotation_t N = rows3(n1,n2,n3);\n')]),
('r-kneip-normalize','',[(AM,'  n3 = n3/n3.norm();\n','  n3.normalize();\n'),(AM,'    solution.block<3,3>(0,0) = R;','    solution.leftCols<3>() = R;')]),
('r-kneip-sqnorm','',[(AM,'  double d_12 = temp1.norm();','  double d_12 = std::sqrt(temp1.squaredNorm());'),(AM,'  double b = 1/( 1 - pow( cos_beta, 2 ) ) - 1;','  double b = (cos_beta*cos_beta)/( 1 - cos_beta*cos_beta );'),(AM,'  if( cos_beta < 0 )\n    b = -sqrt(b);\n  else\n    b = sqrt(b);','  b = (cos_beta < 0 ? -1.0 : 1.0) * sqrt(b);')]),
('r-gao-dot','',[(AM,'  double cosalpha = f2.transpose()*f3;','  double cosalpha = f2.dot(f3);'),(AM,'  double a=pow((BC/AB),2);','  double a=(B-C).squaredNorm()/(A-B).squaredNorm();')]),
('r-gao-square','',[(AM,'  Eigen::Matrix<double,4,1> tempXP2;\n  tempXP2[0] = x[0]*x[0];\n  tempXP2[1] = x[1]*x[1];\n  tempXP2[2] = x[2]*x[2];\n  tempXP2[3] = x[3]*x[3];','  Eigen::Matrix<double,4,1> tempXP2 = x.array().square().matrix();'),(AM,'  Eigen::Matrix<double,4,1> ones;\n  for( size_t i = 0; i < 4; i++) ones[i] = 1.0;','  const Eigen::Matrix<double,4,1> ones = Eigen::Matrix<double,4,1>::Ones();')]),
('r-gao-cwise','',[(AM,'  tempXP3[0] = tempXP2[0]*x[0];\n  tempXP3[1] = tempXP2[1]*x[1];\n  tempXP3[2] = tempXP2[2]*x[2];\n  tempXP3[3] = tempXP2[3]*x[3];','  tempXP3 = tempXP2.cwiseProduct(x);')]),
('r-rot-mean','',[(R,'  pointsCenter1 = pointsCenter1 / numberCorrespondences;\n  pointsCenter2 = pointsCenter2 / numberCorrespondences;\n\n  Eigen::MatrixXd Hcross(3,3);\n  Hcross = Eigen::Matrix3d::Zero();\n','  const double inv = 1.0 / static_cast<double>(numberCorrespondences);\n  pointsCenter1 *= inv;\n  pointsCenter2 *= inv;\n\n  Eigen::MatrixXd Hcross = Eigen::MatrixXd::Zero(3,3);\n')]),
('r-rot-addmul','',[(R,'    Hcross += fprime * f.transpose();\n','    Hcross.noalias() += fprime * f.transpose();\n')]),
('r-stew-nullspace','',[(R,'  size_t numberCorrespondences = indices.size();\n  assert(numberCorrespondences > 6);','  const size_t numberCorrespondences = indices.size();\n  assert(numberCorrespondences >= 7);'),(R,'    essential_t M = F2.inverse() * F1;','    const essential_t M = (F2.inverse() * F1).eval();')]),
('r-seven-kron','',[(R,'  Eigen::Matrix<double,9,1> f1 = SVD.matrixV().col(8);\n  Eigen::Matrix<double,9,1> f2 = SVD.matrixV().col(7);\n\n  Eigen::MatrixXd F1_temp(3,3);\n  F1_temp.col(0) = f1.block<3,1>(0,0);\n  F1_temp.col(1) = f1.block<3,1>(3,0);\n  F1_temp.col(2) = f1.block<3,1>(6,0);\n  essential_t F1 = F1_temp.transpose();','  const Eigen::MatrixXd V = SVD.matrixV();\n  Eigen::Matrix<double,9,1> f1 = V.rightCols<1>();\n  Eigen::Matrix<double,9,1> f2 = V.col(V.cols()-2);\n\n  essential_t F1;\n  F1.row(0) = f1.head<3>().transpose();\n  F1.row(1) = f1.segment<3>(3).transpose();\n  F1.row(2) = f1.tail<3>().transpose();')]),
('r-seven-map','',[(R,'  Eigen::MatrixXd F2_temp(3,3);\n  F2_temp.col(0) = f2.block<3,1>(0,0);\n  F2_temp.col(1) = f2.block<3,1>(3,0);\n  F2_temp.col(2) = f2.block<3,1>(6,0);\n  essential_t F2 = F2_temp.transpose();\n\n  double eps','  essential_t F2;\n  for( int r = 0; r < 3; r++ )\n    for( int c = 0; c < 3; c++ )\n      F2(r,c) = f2(3*r+c);\n\n  double eps')]),
('r-seven-push','',[(R,'      essentials.push_back( F1 - D(0,0).real() * F2 );\n      essentials.push_back( F1 - D(1,0).real() * F2 );\n      essentials.push_back( F1 - D(2,0).real() * F2 );','      essentials.reserve(3);\n      for( int k = 0; k < 3; k++ )\n        essentials.emplace_back( F1 - std::real(D(k)) * F2 );')]),
('r-epnp-cent','',[(EP,'  cws[0][0] = cws[0][1] = cws[0][2] = 0;\n  for(int i = 0; i < number_of_correspondences; i++)\n    for(int j = 0; j < 3; j++)\n      cws[0][j] += pws[3 * i + j];\n\n  for(int j = 0; j < 3; j++)\n    cws[0][j] /= number_of_correspondences;','  Eigen::Vector3d mean = Eigen::Vector3d::Zero();\n  for(int i = 0; i < number_of_correspondences; ++i)\n    mean += Eigen::Map<const Eigen::Vector3d>(pws + 3 * i);\n  mean /= double(number_of_correspondences);\n\n  for(int j = 0; j < 3; j++)\n    cws[0][j] = mean(j);')]),
('r-epnp-ptr','',[(EP,'  pws[3 * number_of_correspondences    ] = X;\n  pws[3 * number_of_correspondences + 1] = Y;\n  pws[3 * number_of_correspondences + 2] = Z;','  double * dst = pws + 3 * number_of_correspondences;\n  *dst++ = X;\n  *dst++ = Y;\n  *dst = Z;')]),
('r-epnp-signs','',[(EP,'  if(z > 0.0)\n    signs[number_of_correspondences] = 1;\n  else\n    signs[number_of_correspondences] = -1;','  signs[number_of_correspondences] = z > 0.0 ? 1 : -1;')]),
('r-eig-weight','',[(R,'  double norm = 0.0;\n  for(size_t i=0; i < numberCorrespondences; i++)\n    norm += pow(adapter.getWeight(indices[i]),2);\n  norm = sqrt(norm);\n\n  //Fill summation terms\n  for(size_t i=0; i < numberCorrespondences; i++)\n  {\n    bearingVector_t f1 = adapter.getBearingVector1(indices[i]);\n    bearingVector_t f2 = adapter.getBearingVector2(indices[i]);\n    Eigen::Matrix3d F = f2*f2.transpose();\n    \n    double weight = 1.0;\n    if( useWeights )\n      weight = adapter.getWeight(indices[i])/norm;\n\n    xxF = xxF + weight*f1[0]*f1[0]*F;','  double norm = 0.0;\n  for(size_t i=0; i < numberCorrespondences; i++)\n  {\n    const double w = adapter.getWeight(indices[i]);\n    norm += w*w;\n  }\n  norm = sqrt(norm);\n\n  //Fill summation terms\n  for(size_t i=0; i < numberCorrespondences; i++)\n  {\n    bearingVector_t f1 = adapter.getBearingVector1(indices[i]);\n    bearingVector_t f2 = adapter.getBearingVector2(indices[i]);\n    const Eigen::Matrix3d F = f2*f2.transpose();\n    \n    const double weight = useWeights ? adapter.getWeight(indices[i])/norm : 1.0;\n\n    xxF += weight*f1.x()*f1.x()*F;')]),
]

M+=[
('r-rot-wise','',[(R,'    pointsCenter1 += adapter.getBearingVector1(indices[i]);\n    pointsCenter2 += adapter.getBearingVector2(indices[i]);\n  }\n\n  pointsCenter1 = pointsCenter1 / numberCorrespondences;\n  pointsCenter2 = pointsCenter2 / numberCorrespondences;\n\n  Eigen::MatrixXd Hcross(3,3);','    B1.col(i) = adapter.getBearingVector1(indices[i]);\n    B2.col(i) = adapter.getBearingVector2(indices[i]);\n  }\n\n  pointsCenter1 = B1.rowwise().mean();\n  pointsCenter2 = B2.rowwise().sum() / double(numberCorrespondences);\n\n  Eigen::MatrixXd Hcross(3,3);'),(R,'  Eigen::Vector3d pointsCenter1 = Eigen::Vector3d::Zero();\n  Eigen::Vector3d pointsCenter2 = Eigen::Vector3d::Zero();\n\n  for( size_t i = 0; i < numberCorrespondences; i++ )\n  {\n    B1','  Eigen::Matrix3Xd B1(3,numberCorrespondences), B2(3,numberCorrespondences);\n  Eigen::Vector3d pointsCenter1, pointsCenter2;\n\n  for( size_t i = 0; i < numberCorrespondences; i++ )\n  {\n    B1')]),
('r-kneip-acc','',[(AM,'  double f_1_pw2 = pow(f_1,2);','  const auto sq = []( double v ) { return v*v; };\n  double f_1_pw2 = sq(f_1);')]),
]
