
A='src/absolute_pose/methods.cpp'; R='src/relative_pose/methods.cpp'
ALL=['M02']
M=[
('p3p','M02',[(A,'p.push_back(adapter.getPoint(index1));\n  p.push_back(adapter.getPoint(index2));\n  transformations_t solutions;\n  modules::p3p_gao','p.push_back(adapter.getPoint(index2));\n  p.push_back(adapter.getPoint(index1));\n  transformations_t solutions;\n  modules::p3p_gao')]),
('gp3p-rot','M02',[(A,'    f.col(i) = R * f.col(i);','    f.col(i) = R.transpose() * f.col(i);')]),
('gp3p-off','M02',[(A,'    v.col(i) = adapter.getCamOffset(indices[i]);\n    p.col','    v.col(i) = adapter.getCamOffset(indices[0]);\n    p.col')]),
('epnp-pt','M02',[(A,'point_t p = adapter.getPoint(indices[i]);\n    bearingVector_t f = adapter.getBearingVector(indices[i]);\n    PnP','point_t p = adapter.getPoint(indices[i]);\n    bearingVector_t f = adapter.getBearingVector(i);\n    PnP')]),
('epnp-inv','M02',[(A,'translation = -rotation * translation;','translation = -rotation.transpose() * translation;')]),
('kneip','M02',[(R,'modules::fivept_kneip_main( f1, f2, rotations );','modules::fivept_kneip_main( f2, f1, rotations );')]),
('stew','M02',[(R,'bearingVector_t f = adapter.getBearingVector2(indices[i]);\n    bearingVector_t fprime = adapter.getBearingVector1(indices[i]);','bearingVector_t f = adapter.getBearingVector1(indices[i]);\n    bearingVector_t fprime = adapter.getBearingVector2(indices[i]);')]),
('seven','M02',[(R,'A.block<1,3>(i,3) = f2[1] * f1.transpose();','A.block<1,3>(i,3) = f2[2] * f1.transpose();')]),
('eight-lay','M02',[(R,'essential_t F = F_temp.transpose();','essential_t F = F_temp;')]),
('eig-w','M02',[(R,'zxF = zxF + weight*f1[2]*f1[0]*F;','zxF = zxF + f1[2]*f1[0]*F;')]),
('eig-wi','M02',[(R,'weight = adapter.getWeight(indices[i])/norm;','weight = adapter.getWeight(i)/norm;')]),
('eig-dir','M02',[(R,'bearingVector_t f2 = adapter.getBearingVector2(indices[0]);','bearingVector_t f2 = adapter.getBearingVector2(indices[1]);')]),
('eig-sign','M02',[(R,'  if( opticalFlow.dot(output.translation) < 0.0 )','  if( opticalFlow.dot(output.translation) > 0.0 )')]),
('six','M02',[(R,'L2.block<3,1>(3,i) = f2.cross(adapter.getCamOffset2(indices[i]));','L2.block<3,1>(3,i) = f2.cross(adapter.getCamOffset1(indices[i]));')]),
('six2','M02',[(R,'L2.block<3,1>(3,i) = f2.cross(adapter.getCamOffset2(indices[i]));','L2.block<3,1>(3,i) = adapter.getCamOffset2(indices[i]).cross(f2);')]),
('ge-p','M02',[(R,'y2P = y2P + ( (weight * f1[1]) * f2 ) * f2_19;','y2P = y2P + ( (weight * f1[1]) * f2 ) * f1_19;')]),
('ge-19','M02',[(R,'f1_19(0,5) = f1[2] * temp;','f1_19(0,5) = f2[2] * temp;')]),
('ge-un','M02',[(R,'m12P = m12P - f2_19.transpose() * f1_19;','m12P = m12P - f1_19.transpose() * f2_19;')]),
('ge-off','M02',[(R,'Eigen::Vector3d t2 = adapter.getCamOffset2(indices[i]);','Eigen::Vector3d t2 = adapter.getCamOffset1(indices[i]);')]),
('ge-start','M02',[(R,'Eigen::Vector3d fprime = adapter.getCamRotation2(indices[i]) *\n        adapter.getBearingVector2(indices[i]) - pointsCenter2;\n    Hcross += fprime * f.transpose();\n  }\n\n  rotation_t startingRotation','Eigen::Vector3d fprime = adapter.getCamRotation1(indices[i]) *\n        adapter.getBearingVector2(indices[i]) - pointsCenter2;\n    Hcross += fprime * f.transpose();\n  }\n\n  rotation_t startingRotation')]),
('17-AR','M02',[(R,'AR(i,5) = l2[1]*l1[5]+l2[4]*l1[2];','AR(i,5) = l2[1]*l1[5]+l2[5]*l1[2];')]),
('17-tb','M02',[(R,'A_trb(i,2) = d1[1]*d2[0]*Rb(0,0)+d1[1]*d2[1]*Rb(0,1)+d1[1]*d2[2]*Rb(0,2)\n                -d1[0]*d2[0]*Rb(1,0)','A_trb(i,2) = d1[1]*d2[0]*Rb(0,0)+d1[1]*d2[1]*Rb(0,1)+d1[1]*d2[2]*Rb(0,2)\n                -d1[0]*d2[0]*Rb(1,1)')]),
('gpnp-b','M02',[(A,'b(2*i+1,0) = f[2]*camOffset[1]-f[1]*camOffset[2];','b(2*i+1,0) = f[2]*camOffset[1]-f[0]*camOffset[2];')]),
('gpnp-A','M02',[(A,'A(2*i+1,8)  = -weights(2,i)*f[1];','A(2*i+1,8)  = -weights(3,i)*f[1];')]),
('upnp-v','M02',[(A,'    C     += (bi.transpose() * Ai);','    C     -= (bi.transpose() * Ai);')]),
('upnp-H','M02',[(A,'I_cay += Vk * Phi;','I_cay += Vk.transpose() * Phi;')]),
('upnp-t','M02',[(A,'      translation_t tinv = I*s - J;\n','      translation_t tinv = I*s + J;\n')]),
('r-loop','',[(R,'  for(size_t i = 0; i < numberCorrespondences; i++)\n  {\n    f1.col(i) = adapter.getBearingVector1(indices[i]);\n    f2.col(i) = adapter.getBearingVector2(indices[i]);\n  }','  for(size_t i = 0; i < numberCorrespondences; i++)\n    f1.col(i) = adapter.getBearingVector1(indices[i]);\n  for(size_t i = 0; i < numberCorrespondences; i++)\n    f2.col(i) = adapter.getBearingVector2(indices[i]);')]),
('r-row','',[(R,'    Q.row(i) = row;\n  }\n\n  Eigen::JacobiSVD< Eigen::MatrixXd > SVD(Q, Eigen::ComputeFullV );\n  Eigen::Matrix<double,9,4> EE = SVD.matrixV().block(0,5,9,4);\n  essentials','    for( int k = 0; k < 9; k++ )\n      Q(i,k) = row(0,k);\n  }\n\n  Eigen::JacobiSVD< Eigen::MatrixXd > SVD(Q, Eigen::ComputeFullV );\n  Eigen::Matrix<double,9,4> EE = SVD.matrixV().block(0,5,9,4);\n  essentials')]),
('r-eig','',[(R,'    xxF = xxF + weight*f1[0]*f1[0]*F;\n    yyF = yyF + weight*f1[1]*f1[1]*F;\n    zzF = zzF + weight*f1[2]*f1[2]*F;\n    xyF = xyF + weight*f1[0]*f1[1]*F;\n    yzF = yzF + weight*f1[1]*f1[2]*F;\n    zxF = zxF + weight*f1[2]*f1[0]*F;\n  }\n\n  //Do','    F *= weight;\n    xxF += f1[0]*f1[0]*F;\n    yyF += f1[1]*f1[1]*F;\n    zzF += f1[2]*f1[2]*F;\n    xyF += f1[0]*f1[1]*F;\n    yzF += f1[1]*f1[2]*F;\n    zxF += f1[2]*f1[0]*F;\n  }\n\n  //Do')]),
('r-f','',[(R,'    A.block<1,3>(i,0) = f2[0] * f1.transpose();\n    A.block<1,3>(i,3) = f2[1] * f1.transpose();\n    A.block<1,3>(i,6) = f2[2] * f1.transpose();','    for( int r = 0; r < 3; r++ )\n      for( int c = 0; c < 3; c++ )\n        A(i,3*r+c) = f2[r] * f1[c];')]),
('r-gp','',[(A,'    f.col(i) = adapter.getBearingVector(indices[i]);\n    rotation_t R = adapter.getCamRotation(indices[i]);\n','    const int id = indices[i];\n    f.col(i) = adapter.getBearingVector(id);\n    rotation_t R = adapter.getCamRotation(id);\n')]),
('r-17','',[(R,'    AE(i,0) = l2[0]*l1[0];\n    AE(i,1) = l2[0]*l1[1];\n    AE(i,2) = l2[0]*l1[2];','    for( int k = 0; k < 3; k++ )\n      AE(i,k) = l2[0]*l1[k];')]),
('r-gpnp','',[(A,'    A(2*i,0)  =  weights(0,i)*f[2];\n    A(2*i,2)  = -weights(0,i)*f[0];\n    A(2*i,3)  =  weights(1,i)*f[2];\n    A(2*i,5)  = -weights(1,i)*f[0];\n    A(2*i,6)  =  weights(2,i)*f[2];\n    A(2*i,8)  = -weights(2,i)*f[0];\n    A(2*i,9)  =  weights(3,i)*f[2];\n    A(2*i,11) = -weights(3,i)*f[0];','    for( int j = 0; j < 4; j++ )\n    {\n      A(2*i,3*j)  =  weights(j,i)*f[2];\n      A(2*i,3*j+2)  = -weights(j,i)*f[0];\n    }')]),
('r-16','',[(A,'c.push_back(c0 + 15.0 * SVD.matrixU().col(0));','c.push_back(c0 + 10.0 * SVD.matrixU().col(0));')]),
('r-W','',[(R,'  if( Ra.determinant() < 0 ) Ra = -Ra;','  if( Ra.determinant() < 0.0 )\n    Ra *= -1.0;')]),
]
