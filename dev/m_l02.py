
A='src/absolute_pose/methods.cpp'; AM='src/absolute_pose/modules/main.cpp'; R='src/relative_pose/methods.cpp'; RM='src/relative_pose/modules/main.cpp'; EP='src/absolute_pose/modules/Epnp.cpp'
ES='src/relative_pose/modules/eigensolver/modules.cpp'; AR='src/math/arun.cpp'
ALL=['L02']
M=[
('gp-A','L02',[(A,'Eigen::MatrixXd A = Eigen::MatrixXd::Zero(2*indices.size(),12);','Eigen::MatrixXd A(2*indices.size(),12);')]),
('gp-invD','L02',[(A,'Eigen::MatrixXd invD = Eigen::MatrixXd::Zero(12,12);','Eigen::MatrixXd invD(12,12);')]),
('upnp-F','L02',[(A,'Eigen::Matrix<double,3,3> F = Eigen::Matrix3d::Zero();','Eigen::Matrix<double,3,3> F;')]),
('upnp-I','L02',[(A,'Eigen::Matrix<double,3,1> J = Eigen::Matrix<double,3,1>::Zero();','Eigen::Matrix<double,3,1> J;')]),
('stew-M','L02',[(RM,'  M.block(6,0,4,10) = Eigen::Matrix<double,4,10>::Zero();\n','')]),
('stew-M2','L02',[(RM,'  M.block(6,0,4,10) = Eigen::Matrix<double,4,10>::Zero();','  M.block(6,0,3,10) = Eigen::Matrix<double,3,10>::Zero();')]),
('gp-groeb','L02',[(AM,'Eigen::Matrix<double,8,8> M = Eigen::Matrix<double,8,8>::Zero();','Eigen::Matrix<double,8,8> M;')]),
('epnp-pw','L02',[(EP,'pw0[0] = pw0[1] = pw0[2] = 0.0;','pw0[0] = pw0[1] = 0.0;')]),
('epnp-abt','L02',[(EP,'      Abt(i,j) = 0.0;','      if( i != j ) Abt(i,j) = 0.0;')]),
('epnp-x','L02',[(EP,'      X.setZero();\n','')]),
('arun','L02',[(AR,'  Hcross = Eigen::Matrix3d::Zero();\n','')]),
('eig','',[(ES,'  Eigen::Matrix3d M_jac2 = Eigen::Matrix3d::Zero();','  Eigen::Matrix3d M_jac2;')]),
('b11','L02',[(RM,'Eigen::Matrix<double,1,5> b13_part1 = Eigen::Matrix<double,1,5>::Zero();','Eigen::Matrix<double,1,5> b13_part1;')]),
('cond','L02',[(R,'  double residualWorld' ,'  double residualWorld')]) if 0 else ('norms','L02',[(RM,'  Eigen::Matrix<double,4,4> transform' ,'')]) if 0 else
('r-flag','',[(A,'  Eigen::Matrix<double,3,3> F = Eigen::Matrix3d::Zero();\n','  Eigen::Matrix<double,3,3> F;\n  bool first = true;\n'),(A,'    F += f * f.transpose();','    if( first ) { F.setZero(); first = false; }\n    F += f * f.transpose();')]),
('r-loopzero','',[(A,'  Eigen::Matrix<double,3,3> F = Eigen::Matrix3d::Zero();\n','  Eigen::Matrix<double,3,3> F;\n  for( int r = 0; r < 3; r++ ) for( int c = 0; c < 3; c++ ) F(r,c) = 0.0;\n')]),
('r-rows','',[(A,'  Eigen::Matrix<double,3,3> F = Eigen::Matrix3d::Zero();\n','  Eigen::Matrix<double,3,3> F;\n  for( size_t r = 0; r < (size_t) F.rows(); ++r ) F.row(r).setZero();\n')]),
('r-comma','',[(A,'  Eigen::Matrix<double,3,3> F = Eigen::Matrix3d::Zero();\n','  Eigen::Matrix<double,3,3> F;\n  F << 0,0,0,0,0,0,0,0,0;\n')]),
('r-A','',[(A,'Eigen::MatrixXd A = Eigen::MatrixXd::Zero(2*indices.size(),12);','Eigen::MatrixXd A(2*indices.size(),12);\n  for( size_t k = 0; k < 2*indices.size(); k++ )\n    for( size_t c = 0; c < 12; c++ )\n      A(k,c) = 0.0;')]),
('r-A2','',[(A,'Eigen::MatrixXd A = Eigen::MatrixXd::Zero(2*indices.size(),12);','Eigen::MatrixXd A(2*indices.size(),12);'),(A,'    A(2*i,0)  =  weights(0,i)*f[2];','    A.row(2*i).setZero(); A.block(2*i+1,0,1,12) = Eigen::Matrix<double,1,12>::Zero();\n    A(2*i,0)  =  weights(0,i)*f[2];')]),
('A3','L02',[(A,'Eigen::MatrixXd A = Eigen::MatrixXd::Zero(2*indices.size(),12);','Eigen::MatrixXd A(2*indices.size(),12);'),(A,'    A(2*i,0)  =  weights(0,i)*f[2];','    A.row(2*i).setZero();\n    A(2*i,0)  =  weights(0,i)*f[2];')]),
('r-helper','',[(AR,'  Hcross = Eigen::Matrix3d::Zero();\n','  clearMatrix(Hcross);\n'),(AR,'opengv::transformation_t\nopengv::math::arun_complete(','static void clearMatrix( Eigen::MatrixXd & m ) { for( int c = 0; c < m.cols(); c++ ) m.col(c).setZero(); }\nopengv::transformation_t\nopengv::math::arun_complete(')]),
('r-lambda','',[(AR,'  Hcross = Eigen::Matrix3d::Zero();\n','  auto clr = [&]() { Hcross.setZero(); };\n  clr();\n')]),
('r-best','',[(A,'  double gamma = 0.0;','  double gamma;\n  double best; for(int i = 0; i < (int) indices.size(); i++ ) { double v = F(0,0)*i; if( i == 0 || v < best ) best = v; }\n  gamma = indices.size() > 0 ? best - best : 0.0;\n  gamma = 0.0;')]),
('svd-part','L02',[('src/triangulation/methods.cpp','mySVD(A, Eigen::ComputeFullV );','mySVD(A, Eigen::ComputeFullU );')]),
('eig-part','L02',[('src/relative_pose/modules/main.cpp','Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);','Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,false);')]),
('r-thin','',[('src/triangulation/methods.cpp','mySVD(A, Eigen::ComputeFullV );','mySVD; mySVD.compute( A, Eigen::ComputeFullU | Eigen::ComputeThinV );')]),
]
M=[m for m in M if m]
