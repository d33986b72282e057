A='src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp'
MA='src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp'
PCP='src/sac_problems/point_cloud/PointCloudSacProblem.cpp'
RO='src/sac_problems/relative_pose/RotationOnlySacProblem.cpp'
CR='src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp'
NR='src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp'
MN='src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp'
ES='src/sac_problems/relative_pose/EigensolverSacProblem.cpp'
ALL=['S08','S09']
INV='''    p_hom.block<3,1>(0,0) =
        opengv::triangulation::triangulate2(_adapter,indices[i]);
    bearingVector_t reprojection1 = p_hom.block<3,1>(0,0);
    bearingVector_t reprojection2 = inverseSolution * p_hom;
    reprojection1 = reprojection1 / reprojection1.norm();
    reprojection2 = reprojection2 / reprojection2.norm();
'''
M=[
('abs-nocamrot','S08',[(A,'        (bodyReprojection - _adapter.getCamOffset(indices[i]));\n    reprojection','        (bodyReprojection - _adapter.getCamOffset(indices[0]));\n    reprojection')]),
('abs-i','S08',[(A,'_adapter.getBearingVector(indices[i])));','_adapter.getBearingVector(i)));')]),
('abs-nonorm','S08',[(A,'    reprojection = reprojection / reprojection.norm();\n','',1)]),
('pc-swap','S08',[(PCP,'_adapter.getPoint2(indices[i])','_adapter.getPoint1(indices[i])'),(PCP,'_adapter.getPoint1(indices[i]) - t','_adapter.getPoint2(indices[i]) - t')]),
('pc-sq','S08',[(PCP,'error.norm()','error.squaredNorm()')]),
('ro-T','S08',[(RO,'model * f2','model.transpose() * f2')]),
('cr-one','S09',[(CR,'reprojError1 + reprojError2','reprojError1 + reprojError1',1)]),
('cr-idx','S09',[(CR,'_adapter.getBearingVector2(indices[i]);\n\n    //bearing','_adapter.getBearingVector2(indices[indices.size()-1-i]);\n\n    //bearing')]),
('cr-noset','S09',[(CR,'  _adapter.setR12(rotation);\n\n  model_t inv','  model_t inv')]),
('nr-cam','S09',[(NR,'cam1Rotation.transpose() * rotation * cam2Rotation;','cam1Rotation.transpose() * rotation * cam2Rotation.transpose();')]),
('nr-off','S09',[(NR,'((translation - cam1Offset) + rotation * cam2Offset)','((translation - cam1Offset) + cam2Offset)')]),
('es-R','S09',[(ES,'rotation.transpose()','rotation',1)]),
('r-abs-dot','',[(A,'1.0 - (reprojection.transpose() * _adapter.getBearingVector(indices[i])));','1.0 - _adapter.getBearingVector(indices[i]).dot(reprojection));'),(A,'reprojection = reprojection / reprojection.norm();\n','reprojection.normalize();\n')]),
('r-abs-late','',[(A,'    reprojection = reprojection / reprojection.norm();\n','',1),(A,'1.0 - (reprojection.transpose() * _adapter.getBearingVector(indices[i])));','1.0 - reprojection.dot(_adapter.getBearingVector(indices[i])) / reprojection.norm());')]),
('r-abs-direct','',[(A,'''    point_t bodyReprojection = inverseSolution * p_hom;
''','''    point_t bodyReprojection = model.block<3,3>(0,0).transpose() * (_adapter.getPoint(indices[i]) - model.col(3));
''',1)]),
('r-abs-swap1','',[(A,'''        _adapter.getCamRotation(indices[i]).transpose() *
        (bodyReprojection - _adapter.getCamOffset(indices[i]));
    reprojection''','''        _adapter.getCamRotation(indices[i]).transpose() * bodyReprojection -
        _adapter.getCamRotation(indices[i]).transpose() * _adapter.getCamOffset(indices[i]);
    reprojection''')]),
('r-pc','',[(PCP,'''    point_t transformedPoint = model * p_hom;
    translation_t error = _adapter.getPoint1(indices[i]) - transformedPoint;
    scores.push_back(error.norm());''','''    translation_t error = model.block<3,3>(0,0) * _adapter.getPoint2(indices[i]) + model.col(3) - _adapter.getPoint1(indices[i]);
    scores.push_back(sqrt(error.dot(error)));''')]),
('r-ro','',[(RO,'''    bearingVector_t f2_unrotated = model * f2;
''','''    bearingVector_t f2_unrotated;
    for(int r = 0; r < 3; r++)
      f2_unrotated[r] = model(r,0)*f2[0] + model(r,1)*f2[1] + model(r,2)*f2[2];
'''),(RO,'1.0 - (f1.transpose() * f2_unrotated)','1.0 - (f1[0]*f2_unrotated[0] + f1[1]*f2_unrotated[1] + f1[2]*f2_unrotated[2])')]),
('r-cr','',[(CR,INV,'''    point_t p = opengv::triangulation::triangulate(_adapter,indices[i]);
    bearingVector_t reprojection1 = p.normalized();
    bearingVector_t reprojection2 = (rotation.transpose() * (p - translation)).normalized();
''')]),
('r-cr-sum','',[(CR,'''    double reprojError1 = 1.0 - (f1.transpose() * reprojection1);
    double reprojError2 = 1.0 - (f2.transpose() * reprojection2);
    scores.push_back(reprojError1 + reprojError2);''','''    scores.push_back(2.0 - f1.dot(reprojection1) - reprojection2.dot(f2));''')]),
('r-cr-it','',[(CR,'''  for( size_t i = 0; i < indices.size(); i++ )
  {
    p_hom.block<3,1>(0,0) =
        opengv::triangulation::triangulate2(_adapter,indices[i]);''','''  scores.reserve(scores.size()+indices.size());
  for( std::vector<int>::const_iterator it = indices.begin(); it != indices.end(); ++it )
  {
    const size_t k = static_cast<size_t>(*it);
    p_hom.block<3,1>(0,0) =
        opengv::triangulation::triangulate2(_adapter,k);'''),(CR,'''_adapter.getBearingVector1(indices[i]);
    bearingVector_t f2 = _adapter.getBearingVector2(indices[i]);

    //bearing-vector based outlier criterium (select''','''_adapter.getBearingVector1(k);
    bearingVector_t f2 = _adapter.getBearingVector2(k);

    //bearing-vector based outlier criterium (select''')]),
('r-nr-helper','',[(NR,'''    translation_t directTranslation =
        cam1Rotation.transpose() *
        ((translation - cam1Offset) + rotation * cam2Offset);
''','''    translation_t directTranslation = rotation * cam2Offset;
    directTranslation += translation;
    directTranslation -= cam1Offset;
    directTranslation = (cam1Rotation.transpose() * directTranslation).eval();
''')]),
('r-nr-range','',[(NR,'  for( size_t i = 0; i < indices.size(); i++ )\n  {\n    translation_t cam1Offset','  const size_t N = indices.size();\n  for( size_t i = 0; i != N; ++i )\n  {\n    translation_t cam1Offset')]),
]
