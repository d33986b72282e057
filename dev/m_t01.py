T='src/triangulation/methods.cpp'
ALL=['T01','S09']
M=[
('row-swap','T01',[(T,'A.row(3) = f2[1] * P2.row(2)','A.row(3) = f2[1] * P1.row(2)')]),
('samerow','T01',[(T,'A.row(1) = f1[1] * P1.row(2) - f1[2] * P1.row(1)','A.row(1) = f1[0] * P1.row(2) - f1[2] * P1.row(0)')]),
('p2','T01',[(T,'P2.block<3,1>(0,3) = -R12.transpose()*t12','P2.block<3,1>(0,3) = -t12')]),
('lastcol','T01',[(T,'/ mySVD.matrixV()(3,3)','/ mySVD.matrixV()(3,2)')]),
('sign','T01',[(T,'A(1,1) = -f2_unrotated.dot(f2_unrotated);','A(1,1) = f2_unrotated.dot(f2_unrotated);')]),
('f2f1','T01',[(T,'b[1] = t12.dot(f2_unrotated);','b[1] = t12.dot(f2);')]),
('norm-assume','',[(T,'A(0,0) = f1.dot(f1);','A(0,0) = f1.squaredNorm();')]),
('onlyxm','T01',[(T,'( xm + xn )/2','xm')]),
('r-cramer','',[(T,'Eigen::Vector2d lambda = A.inverse() * b;','double dd = A(0,0)*A(1,1)-A(0,1)*A(1,0); Eigen::Vector2d lambda((A(1,1)*b[0]-A(0,1)*b[1])/dd,(A(0,0)*b[1]-A(1,0)*b[0])/dd);')]),
('r-half','',[(T,'( xm + xn )/2','0.5 * xm + 0.5 * xn')]),
('r-six','',[(T,'Eigen::MatrixXd A(4,4);','Eigen::Matrix<double,6,4> A; A.row(4) = f1[0] * P1.row(1) - f1[1] * P1.row(0); A.row(5) = f2[0] * P2.row(1) - f2[1] * P2.row(0);'),(T,'JacobiSVD< Eigen::MatrixXd >','JacobiSVD< Eigen::Matrix<double,6,4> >')]),
('r-col','',[(T,'''  worldPoint[0] = mySVD.matrixV()(0,3);
  worldPoint[1] = mySVD.matrixV()(1,3);
  worldPoint[2] = mySVD.matrixV()(2,3);
  worldPoint = worldPoint / mySVD.matrixV()(3,3);
''','''  const Eigen::Vector4d v = mySVD.matrixV().col(3);
  worldPoint = v.head<3>() / v[3];
''')]),
('r-fixed','',[(T,'Eigen::MatrixXd A(4,4);','Eigen::Matrix4d A;'),(T,'JacobiSVD< Eigen::MatrixXd >','JacobiSVD< Eigen::Matrix4d >')]),
('r-p1','',[(T,'A.row(0) = f1[0] * P1.row(2) - f1[2] * P1.row(0);','A.row(0) << -f1[2], 0.0, f1[0], 0.0;')]),
('r-hn','',[(T,'''  worldPoint[0] = mySVD.matrixV()(0,3);
  worldPoint[1] = mySVD.matrixV()(1,3);
  worldPoint[2] = mySVD.matrixV()(2,3);
  worldPoint = worldPoint / mySVD.matrixV()(3,3);
''','''  const Eigen::Vector4d v = mySVD.matrixV().col(3);
  worldPoint = v.hnormalized();
''')]),
('r-inv','',[(T,'P2.block<3,1>(0,3) = -R12.transpose()*t12;','P2.col(3) = -(P2.leftCols<3>()*t12);')]),
]
