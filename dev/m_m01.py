A='src/absolute_pose/methods.cpp'; R='src/relative_pose/methods.cpp'; PC='src/point_cloud/methods.cpp'; I='include/opengv/Indices.hpp'
ALL=['M01']
IDX='  Indices idx(adapter.getNumberCorrespondences());\n  return '
M=[
('gao-idx','M01',[(A,'return p3p_gao( adapter, indices[0], indices[1], indices[2] );','return p3p_gao( adapter, indices[0], indices[2], indices[1] );')]),
('five-all','M01',[(R,IDX+'fivept_stewenius','  Indices idx(adapter.getNumberCorrespondences()-1);\n  return fivept_stewenius')]),
('seven-i','M01',[(R,'\n    bearingVector_t f2 = adapter.getBearingVector2(indices[i]);','\n    bearingVector_t f2 = adapter.getBearingVector2(i);')]),
('weights-i','M01',[(R,'norm += pow(adapter.getWeight(indices[i]),2);','norm += pow(adapter.getWeight(i),2);')]),
('flag','M01',[(R,'  Indices idx(indices);\n  return eigensolver(adapter,idx,output,useWeights);','  Indices idx(indices);\n  return eigensolver(adapter,idx,output,false);')]),
('seed','M01',[(R,'  eigensolverOutput_t output;\n  output.rotation = adapter.getR12();\n  return eigensolver(adapter,indices,output,useWeights);','  eigensolverOutput_t output;\n  output.rotation = rotation_t::Identity();\n  return eigensolver(adapter,indices,output,useWeights);')]),
('drop','M01',[(R,'  output.rotation = adapter.getR12();\n  return eigensolver(adapter,indices,output,useWeights);','  output.rotation = adapter.getR12();\n  return eigensolver(adapter,output,useWeights);')]),
('gpnpN','M01',[(A,'c0 = c0 / indices.size();','c0 = c0 / adapter.getNumberCorrespondences();')]),
('gp3p','M01',[(A,'  indices.push_back(index1);','  indices.push_back(index0);')]),
('indices','M01',[(I,'_numberCorrespondences(indices.size())','_numberCorrespondences(indices.size()-1)')]),
('epnp','M01',[(A,'bearingVector_t f = adapter.getBearingVector(indices[i]);','bearingVector_t f = adapter.getBearingVector(i);')]),
('r-loop','',[(R,'  Indices idx(indices);\n  return fivept_nister(adapter,idx);','  const Indices subset(indices);\n  const essentials_t result = fivept_nister(adapter,subset);\n  return result;')]),
('r-var','',[(R,'\n    bearingVector_t f2 = adapter.getBearingVector2(indices[i]);','\n    const int k = indices[i];\n    bearingVector_t f2 = adapter.getBearingVector2(k);')]),
('r-param','',[(A,'''    const std::vector<int> & indices )
{
  assert(indices.size()>2);
  return p3p_gao( adapter, indices[0], indices[1], indices[2] );''','''    const std::vector<int> & indices )
{
  assert(indices.size()>2);
  const size_t a = indices[0], b = indices[1], c = indices[2];
  return p3p_gao( adapter, a, b, c );''')]),
]
