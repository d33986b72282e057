AP='src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp'; MA='src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp'
CR='src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp'; NR='src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp'
MR='src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp'; TO='src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp'
MC='src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp'; RO='src/sac_problems/relative_pose/RotationOnlySacProblem.cpp'
PC='src/sac_problems/point_cloud/PointCloudSacProblem.cpp'; ES='src/sac_problems/relative_pose/EigensolverSacProblem.cpp'
ALL=['S10']
M=[
('notrans','S10',[(AP,'  _adapter.sett(model.col(3));\n','')]),
('rotT','S10',[(MA,'_adapter.setR(model.block<3,3>(0,0));','_adapter.setR(model.block<3,3>(0,0).transpose());')]),
('all','S10',[(CR,'opengv::relative_pose::optimize_nonlinear(_adapter,inliers);','opengv::relative_pose::optimize_nonlinear(_adapter);')]),
('after','S10',[(NR,'  _adapter.sett12(translation);\n  _adapter.setR12(rotation);\n  optimized_model =\n      opengv::relative_pose::optimize_nonlinear(_adapter,inliers);','  _adapter.sett12(translation);\n  optimized_model =\n      opengv::relative_pose::optimize_nonlinear(_adapter,inliers);\n  _adapter.setR12(rotation);')]),
('raw','S10',[(MR,'_adapter,_adapter.convertMultiIndices(inliers));','_adapter,inliers[0]);')]),
('keep','S10',[(MR,'  optimized_model = opengv::relative_pose::optimize_nonlinear(','  opengv::relative_pose::optimize_nonlinear(')]),
('es','S10',[(ES,'rotation_t rotation = model.rotation;','rotation_t rotation = _adapter.getR12();',True)]),
('esvar','S10',[(ES,'double maxVariation = 0.0;','double maxVariation = 0.01;')]),
('ro','S10',[(RO,'opengv::relative_pose::rotationOnly(_adapter,inliers);','opengv::relative_pose::twopt_rotationOnly(_adapter,inliers);')]),
('pc','S10',[(PC,'optimized_model = opengv::point_cloud::threept_arun(_adapter,inliers);','if(inliers.size() > 3) optimized_model = opengv::point_cloud::threept_arun(_adapter,inliers);')]),
('out','S10',[(AP,'  _adapter.sett(model.col(3));\n','  _adapter.sett(optimized_model.col(3));\n')]),
('r-tmp','',[(CR,'  optimized_model =\n      opengv::relative_pose::optimize_nonlinear(_adapter,inliers);','  const model_t refined = opengv::relative_pose::optimize_nonlinear(_adapter,inliers);\n  optimized_model = refined;')]),
('r-order','',[(CR,'  _adapter.sett12(translation);\n  _adapter.setR12(rotation);\n  optimized','  _adapter.setR12(rotation);\n  _adapter.sett12(translation);\n  optimized')]),
('r-block','',[(CR,'  translation_t translation = model.col(3);\n  rotation_t rotation = model.block<3,3>(0,0);\n  _adapter.sett12(translation);\n  _adapter.setR12(rotation);\n  optimized','  rotation_t rotation;\n  for(int i=0;i<3;i++) for(int j=0;j<3;j++) rotation(i,j)=model(i,j);\n  _adapter.sett12(model.block<3,1>(0,3));\n  _adapter.setR12(rotation);\n  optimized')]),
('r-flat','',[(MR,'  optimized_model = opengv::relative_pose::optimize_nonlinear(\n      _adapter,_adapter.convertMultiIndices(inliers));','  std::vector<int> flat;\n  for(size_t p = 0; p < inliers.size(); p++)\n    for(size_t c = 0; c < inliers[p].size(); c++)\n      flat.push_back(_adapter.convertMultiIndex(p,inliers[p][c]));\n  optimized_model = opengv::relative_pose::optimize_nonlinear(_adapter,flat);')]),
('r-es','',[(ES,'''    if(firstIteration)
    {
      optimized_model = temp_optimized_model;
      firstIteration = false;
    }
    else
    {
      if(temp''','''    if(i == 0)
      optimized_model = temp_optimized_model;
    else
    {
      if(temp''')]),
('r-es2','',[(ES,"      cayley[i] = cayley[i] + (((double) rnd())/ ((double) std::numeric_limits<int>::max())-0.5)*2.0*maxVariation;\n    temp_optimized_model.rotation = math::cayley2rot(cayley);","      cayley[i] += 0.0;\n    temp_optimized_model.rotation = model.rotation;")]),
]
