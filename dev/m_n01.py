A='src/absolute_pose/methods.cpp'; R='src/relative_pose/methods.cpp'; PC='src/point_cloud/methods.cpp'
CY='src/math/cayley.cpp'
ALL=['N01']
M=[
('unpack-T','N01',[(A,'transformation.block<3,3>(0,0) = math::cayley2rot(x.block<3,1>(3,0));','transformation.block<3,3>(0,0) = math::cayley2rot(x.block<3,1>(3,0)).transpose();')]),
('pack-t0','N01',[(R,'x.block<3,1>(0,0) = adapter.gett12();\n','x.block<3,1>(0,0).setZero();\n',1)]),
('n-1','N01',[(R,'for( size_t i = 0; i < _indices.size(); i++ )\n    {\n      translation_t cam1Offset','for( size_t i = 0; i+1 < _indices.size(); i++ )\n    {\n      translation_t cam1Offset',1)]),
('noidx','N01',[(PC,'_adapter.getPoint1(_indices[i])','_adapter.getPoint1(i)')]),
('cam2','N01',[(R,'rotation_t cam2Rotation = _adapter.getCamRotation2(_indices[i]);','rotation_t cam2Rotation = _adapter.getCamRotation1(_indices[i]);',1)]),
('one-err','N01',[(R,'factor*(reprojError1 + reprojError2)','factor*reprojError2',1)]),
('noR','N01',[(R,'      _adapter.setR12(directRotation);\n\n      transformation_t inv','      transformation_t inv',1)]),
('cay','N01',[(CY,'cayley[2] = -C(0,1);','cayley[2] = C(0,1);')]),
('values','N01',[(A,'OptimizationFunctor<double>(6,indices.size())','OptimizationFunctor<double>(6,6)')]),
('idxlist','N01',[(A,'''  Indices idx(indices);
  return optimize_nonlinear(adapter,idx);''','''  Indices idx(indices.size());
  return optimize_nonlinear(adapter,idx);''',1)]),
('returnprior','N01',[(A,'transformation.col(3) = x.block<3,1>(0,0);','transformation.col(3) = adapter.gett();')]),
('stale','N01',[(R,'p_hom.block<3,1>(0,0) =\n          opengv::triangulation::triangulate2(_adapter,_indices[i]);','p_hom.block<3,1>(0,0) =\n          opengv::triangulation::triangulate2(_adapter,i);',1)]),
('r-layout','',[(A,'x.block<3,1>(0,0) = adapter.gett();','x.block<3,1>(3,0) = adapter.gett();'),(A,'x.block<3,1>(3,0) = math::rot2cayley(adapter.getR());','x.block<3,1>(0,0) = math::rot2cayley(adapter.getR());'),
  (A,'translation_t translation = x.block<3,1>(0,0);\n    cayley_t cayley = x.block<3,1>(3,0);','translation_t translation = x.block<3,1>(3,0);\n    cayley_t cayley = x.block<3,1>(0,0);'),
  (A,'''transformation.col(3) = x.block<3,1>(0,0);
  transformation.block<3,3>(0,0) = math::cayley2rot(x.block<3,1>(3,0));''','''transformation.col(3) = x.block<3,1>(3,0);
  transformation.block<3,3>(0,0) = math::cayley2rot(x.block<3,1>(0,0));''')]),
('r-pchead','',[(PC,'''    transformation_t transformation;
    transformation.col(3) = x.block<3,1>(0,0);
    cayley_t cayley = x.block<3,1>(3,0);
    transformation.block<3,3>(0,0) = math::cayley2rot(cayley);
''','''    const translation_t t = x.head<3>();
    const rotation_t Rot = math::cayley2rot(x.tail<3>());
'''),(PC,'point_t transformedPoint = transformation * p_hom;','point_t transformedPoint = Rot * p_hom.head<3>() + t;')]),
('r-helper','',[(R,'struct OptimizeNonlinearFunctor1 :','static double reproj(const bearingVector_t & f, const bearingVector_t & p) { return 1.0 - f.dot(p)/p.norm(); }\nstruct OptimizeNonlinearFunctor1 :'),
 (R,'''      reprojection1 = reprojection1 / reprojection1.norm();
      reprojection2 = reprojection2 / reprojection2.norm();
''','',1),(R,'''      double reprojError1 = 1.0 - (f1.transpose() * reprojection1);
      double reprojError2 = 1.0 - (f2.transpose() * reprojection2);
''','''      double reprojError1 = reproj(f1,reprojection1);
      double reprojError2 = reproj(f2,reprojection2);
''',1)]),
('r-int','',[(A,'for(size_t i = 0; i < _indices.size(); i++)\n    {\n      //get point in homogeneous form','const int nn = _indices.size();\n    for(int i = 0; i < nn; ++i)\n    {\n      //get point in homogeneous form',1)]),
('r-factor','',[(A,'''      double factor = 1.0;
      fvec[i] = factor *
          (1.0 -''','''      fvec(i) =
          (1.0 -''')]),
('r-idxvar','',[(PC,'      p_hom.block<3,1>(0,0) = _adapter.getPoint2(_indices[i]);','      const int k = _indices[i];\n      p_hom.head<3>() = _adapter.getPoint2(k);')]),
('r-cayley','',[(CY,'''  double scale = 1+pow(cayley[0],2)+pow(cayley[1],2)+pow(cayley[2],2);
''','''  const double scale = 1.0 + cayley.squaredNorm();
'''),(CY,'  R = (1/scale) * R;','  R /= scale;')]),
('r-cayley2','',[(CY,'''  C1 = R-Eigen::Matrix3d::Identity();
  C2 = R+Eigen::Matrix3d::Identity();
  C = C1 * C2.inverse();
''','''  C = (R-Eigen::Matrix3d::Identity()) * (R+Eigen::Matrix3d::Identity()).inverse();
''')]),
]
