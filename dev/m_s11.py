AP='src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp'; MA='src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp'
CR='src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp'; NR='src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp'
MR='src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp'; TO='src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp'
PC='src/sac_problems/point_cloud/PointCloudSacProblem.cpp'
ALL=['S11']
M=[
('fourth','S11',[(AP,'p_hom.block<3,1>(0,0) = _adapter.getPoint(indices[3]);\n    p_hom[3] = 1.0;','p_hom.block<3,1>(0,0) = _adapter.getPoint(indices[2]);\n    p_hom[3] = 1.0;')]),
('worst','S11',[(AP,'if( score < minScore )','if( score > minScore )')]),
('empty','S11',[(AP,'  if(minIndex == -1)\n    return false;\n  outModel','  if(minIndex == -1)\n    return true;\n  outModel')]),
('first','S11',[(MA,'outModel = solutions[minIndex];','outModel = solutions[0];')]),
('bodyT','S11',[(AP,'''    rotation_t rotation = solution.block<3,3>(0,0);
    solution.col(3) = translation - rotation * R_bc.transpose() * t_bc;''','''    rotation_t rotation = solution.block<3,3>(0,0);
    solution.col(3) = translation - rotation * R_bc * t_bc;''')]),
('fivelast','S11',[(CR,'for(size_t i = 0; i < 5; i++) subIndices1.push_back(indices[i]);','for(size_t i = 0; i < 5; i++) subIndices1.push_back(i);')]),
('sub1','S11',[(CR,'''    case 2:
      translation = -scale*SVD.matrixU().col(2);
      rotation = SVD.matrixU() * W * SVD.matrixV().transpose();''','''    case 2:
      translation = -scale*SVD.matrixU().col(2);
      rotation = SVD.matrixU() * W.transpose() * SVD.matrixV().transpose();''')]),
('det','S11',[(CR,'    if( rotation.determinant() < 0 ) rotation = -rotation;','')]),
('k5','S11',[(CR,'for( int k = 0; k < getSampleSize(); k++ )','for( int k = 1; k < getSampleSize(); k++ )')]),
('besti','S11',[(CR,'        bestQualityIndex = i;\n        bestQualitySubindex = j;','        bestQualitySubindex = j;\n        bestQualityIndex = j;')]),
('sixfactor','S11',[(NR,'g[3] = f1.transpose() * (t1_skew*rotations[r]-rotations[r]*t2_skew) * f2;','g[3] = f1.transpose() * (t1_skew*rotations[r]+rotations[r]*t2_skew) * f2;')]),
('eig','S11',[(MR,'''Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
          Eigen::Matrix4d V = Eig.eigenvectors();''','''Eigen::EigenSolver< Eigen::Matrix4d > Eig(G);
          Eigen::Matrix4d V = Eig.eigenvectors().real();''')]),
('central','S11',[(NR,'outModel.col(3) = t_bc1 + R_bc1 * t_c1c2 - outModel.block<3,3>(0,0) * t_bc2;','outModel.col(3) = t_bc1 + R_bc1 * t_c1c2 - outModel.block<3,3>(0,0) * t_bc1;')]),
('centralflag','S11',[(NR,'    returnValue = centralProblem.computeModelCoefficients(indices,outModel);','    centralProblem.computeModelCoefficients(indices,outModel);')]),
('mrflag','S11',[(MR,'          returnValue = false; // no solution found','          returnValue = true; // no solution found')]),
('bins','S11',[(MR,'binIndex, indices[binIndex][tempIndices[binIndex]] ) );','0, indices[binIndex][tempIndices[binIndex]] ) );')]),
('prior','S11',[(TO,'opengv::relative_pose::twopt(_adapter,true,indices);','opengv::relative_pose::twopt(_adapter,true,indices);\n  outModel.block<3,3>(0,0) = Eigen::Matrix3d::Identity();')]),
('pcall','S11',[(PC,'outModel = opengv::point_cloud::threept_arun(_adapter,indices);','outModel = opengv::point_cloud::threept_arun(_adapter);')]),
('single','S11',[(AP,'if( solutions.size() == 1 )','if( solutions.size() >= 1 )')]),
('score0','S11',[(MA,'double minScore = 1000000.0;','double minScore = 1.0;')]),
('r-max','',[(AP,'double minScore = 1000000.0;','double best = -1000000.0;'),(AP,'double score =\n        1.0 - (reprojection.transpose() * _adapter.getBearingVector(indices[3]));','double score = reprojection.dot(_adapter.getBearingVector(indices[3]));'),(AP,'    if( score < minScore )\n    {\n      minScore = score;','    if( score > best )\n    {\n      best = score;')]),
('r-keep','',[(MA,'  int minIndex = -1;','  int minIndex = -1;\n  model_t best = model_t::Zero();'),(MA,'      minIndex = i;\n','      minIndex = i;\n      best = solutions[i];\n'),(MA,'outModel = solutions[minIndex];','outModel = best;')]),
('r-mean','',[(CR,'      // is quality better? (lower)','      quality /= getSampleSize();\n      // is quality better? (lower)')]),
('r-four','',[(CR,'''    case 2:
      translation = -scale*SVD.matrixU().col(2);
      rotation = SVD.matrixU() * W * SVD.matrixV().transpose();
      break;
    case 3:
      translation = -scale*SVD.matrixU().col(2);
      rotation''','''    case 2:
    {
      translation = SVD.matrixU().col(2);
      translation *= -scale;
      const rotation_t V = SVD.matrixV();
      rotation = SVD.matrixU() * W * V.transpose();
      break;
    }
    case 3:
      translation = -(scale*SVD.matrixU().col(2));
      rotation''')]),
('r-first','',[(AP,'  if( solutions.size() == 1 )\n  {\n    outModel = solutions[0];\n    return true;\n  }\n','  const size_t numberSolutions = solutions.size();\n  if( numberSolutions == 0 )\n    return false;\n  if( numberSolutions < 2 )\n  {\n    outModel = solutions.front();\n    return true;\n  }\n')]),
('r-skew','',[(NR,'g[3] = f1.transpose() * (t1_skew*rotations[r]-rotations[r]*t2_skew) * f2;','g[3] = f1.dot(t1.cross(rotations[r]*f2)) - f1.dot(rotations[r]*t2.cross(f2));')]),
('r-svd','',[(NR,'''Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
          Eigen::Matrix4d V = Eig.eigenvectors();

          double factor = V(3,0);''','''Eigen::JacobiSVD< Eigen::Matrix4d > Eig(G, Eigen::ComputeFullV);
          Eigen::Matrix4d V = Eig.matrixV();

          double factor = V(3,3);'''),(NR,'(1.0/factor) * V(k,0);','V(k,3) / factor;')]),
('r-sub','',[(CR,'    std::vector<int> subIndices1;\n    for(size_t i = 0; i < 5; i++) subIndices1.push_back(indices[i]);','    std::vector<int> subIndices1(indices.begin(), indices.begin() + 5);')]),
('r-noscale','',[(CR,'if( bestQualityIndex == -1 )\n    return false; // no solution found\n  else\n  {','const bool found = bestQualityIndex >= 0;\n  if( !found )\n    return false; // no solution found\n  else\n  {')]),
]
