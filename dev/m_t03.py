A='src/absolute_pose/methods.cpp'; R='src/relative_pose/methods.cpp'; PC='src/point_cloud/methods.cpp'; AR='src/math/arun.cpp'
ALL=['T03']
M=[
('p2p-beta','T03',[(A,'  if( cos_beta < 0 )\n    b = -sqrt(b);','  if( cos_beta < 0 )\n    b = sqrt(b);')]),
('p2p-tie','T03',[(A,'(fabs(n1[1]) >= fabs(n1[0]))','(fabs(n1[1]) > fabs(n1[0]))'),(A,'(fabs(n1[0]) >= fabs(n1[1]))','(fabs(n1[0]) > fabs(n1[1]))')]),
('p2p-n3','T03',[(A,'n3[1] = -n1[2]/n1[1];','n3[1] = n1[2]/n1[1];')]),
('p2p-R','T03',[(A,'T * adapter.getR().transpose() * N.transpose()','T * adapter.getR() * N.transpose()')]),
('p2p-idx','T03',[(A,'return p2p( adapter, indices[0], indices[1] );','return p2p( adapter, indices[1], indices[1] );')]),
('twopt-flow','T03',[(R,'opticalFlow = f1 - f1prime','opticalFlow = f1prime - f1')]),
('twopt-rot','T03',[(R,'    f2prime = R12 * f2prime;\n','')]),
('twopt-rotT','T03',[(R,'rotation_t R12 = adapter.getR12();\n    f1prime','rotation_t R12 = adapter.getR12().transpose();\n    f1prime')]),
('arunc','T03',[(AR,'pointsCenter1 - rotation*pointsCenter2','pointsCenter1 + rotation*pointsCenter2')]),
('arunc2','T03',[(AR,'pointsCenter2 = pointsCenter2 / p2.size();','pointsCenter2 = pointsCenter2 / (p2.size()-1);')]),
('r-cross','',[(R,'  translation = translation/translation.norm();','  translation.normalize();')]),
('r-flow','',[(R,'if( opticalFlow.dot(translation) < 0 )','if( f1.dot(translation) < f1prime.dot(translation) )')]),
('r-p2p','',[(A,'double b = 1/( 1 - pow( cos_beta, 2 ) ) - 1;\n\n  if( cos_beta < 0 )\n    b = -sqrt(b);\n  else\n    b = sqrt(b);','double b = cos_beta/sqrt(1.0-cos_beta*cos_beta);')]),
('r-p2p2','',[(A,'  e3 = e3/e3.norm();\n  Eigen::Vector3d e2','  e3.normalize();\n  Eigen::Vector3d e2')]),
('r-arunmean','',[(AR,'    Hcross += fprime * f.transpose();','    Hcross.noalias() += fprime * f.transpose();')]),
('r-arunmom','',[(AR,'Eigen::Vector3d f = p1[i] - pointsCenter1;','Eigen::Vector3d f = p1[i];')]),
]
