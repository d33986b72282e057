AP='src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp'; MA='src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp'
CR='src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp'; NR='src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp'
MR='src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp'; TO='src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp'
MC='src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp'; RO='src/sac_problems/relative_pose/RotationOnlySacProblem.cpp'
APH='include/opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp'; EH='include/opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp'
NRH='include/opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp'
ALL=['S12']
M=[
('epnp5','S12',[(AP,'sampleSize = 6;','sampleSize = 5;')]),
('ap3','S12',[(AP,'int sampleSize = 4;','int sampleSize = 3;')]),
('seven','S12',[(CR,'sampleSize = 7 + 2;','sampleSize = 7 - 2;')]),
('eightsw','S12',[(CR,'sampleSize = 8 + 1;','sampleSize = 5 + 2;')]),
('six8','S12',[(NR,'sampleSize = 6 + 3;','sampleSize = 5;')]),
('ge','S12',[(MR,'sampleSize = 8;','sampleSize = 5;')]),
('bins','S12',[(MR,'  size_t binIndex = rnd() % _adapter.getNumberPairs();\n  for( int i = 0; i < sampleSize; i++ )','  size_t binIndex = rnd() % _adapter.getNumberPairs();\n  for( int i = binIndex; i < sampleSize; i++ )')]),
('wrap','S12',[(MA,'    if(binIndex >= sampleSizes.size())\n      binIndex = 0;','    if(binIndex > sampleSizes.size())\n      binIndex = 0;')]),
('ro','S12',[('src/sac_problems/relative_pose/RotationOnlySacProblem.cpp','sampleSize = 2;','sampleSize = 1;')]),
('ctor','S12',[(NRH,'    _algorithm(algorithm),','    _algorithm(SIXPT),')]),
('swap','S12',[(AP,'opengv::absolute_pose::p3p_gao(_adapter,indices);','opengv::absolute_pose::p3p_kneip(_adapter,indices);')]),
('seven17','S12',[(MR,'sampleSize = 17;','sampleSize = 16;')]),
('mc','S12',[(MC,'sampleSizes.push_back(_sampleSize);','sampleSizes.push_back(_sampleSize/2);')]),
('sub','S12',[(CR,'for(size_t i = 0; i < 7; i++) subIndices3','for(size_t i = 0; i < 6; i++) subIndices3')]),
('r-switch','',[(AP,'''  int sampleSize = 4;
  if(_algorithm == TWOPT)
    sampleSize = 2;
  if(_algorithm == EPNP)
    sampleSize = 6;
  return sampleSize;''','''  switch(_algorithm)
  {
    case TWOPT: return 2;
    case EPNP: return 6;
    default: return 4;
  }''')]),
('r-div','',[(MA,'''  for( int i = 0; i < sampleSize; i++ )
  {
    sampleSizes[binIndex]++;
    binIndex++;
    if(binIndex >= sampleSizes.size())
      binIndex = 0;
  }''','''  for( int i = 0; i < sampleSize; i++ )
    sampleSizes[(binIndex + i) % sampleSizes.size()] += 1;''')]),
('r-more','',[(AP,'sampleSize = 6;','sampleSize = 7;')]),
]
