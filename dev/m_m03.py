A='src/absolute_pose/methods.cpp'; R='src/relative_pose/methods.cpp'; PC='src/point_cloud/methods.cpp'
ALL=['M03']
M=[
('lower','M03',[(R,'assert(numberCorrespondences > 6);','assert(numberCorrespondences > 5);')]),
('epnp5','M03',[(A,'assert(indices.size() > 5);','assert(indices.size() > 4);')]),
('gone','M03',[(R,'assert(numberCorrespondences == 6);','')]),
('p2p','M03',[(A,'return p2p( adapter, indices[0], indices[1] );','return p2p( adapter, indices[0], indices[2] );')]),
('late','M03',[(R,'''  size_t numberCorrespondences = indices.size();
  assert(numberCorrespondences > 16);''','''  size_t numberCorrespondences = indices.size();'''),]),
('five','M03',[(R,'assert(numberCorrespondences == 5);','assert(numberCorrespondences >= 4);')]),
('over','M03',[(R,'  for( size_t i = 0; i < numberCorrespondences; i++ )\n  {\n    //bearingVector_t f = adapter.getBearingVector1(indices[i]);','  for( size_t i = 0; i <= numberCorrespondences; i++ )\n  {\n    //bearingVector_t f = adapter.getBearingVector1(indices[i]);')]),
('arun','M03',[(PC,'assert(numberCorrespondences > 2);','assert(numberCorrespondences > 1);')]),
('r-ge','',[(R,'assert(numberCorrespondences > 6);','assert(numberCorrespondences >= 7);')]),
('r-throw','',[(R,'assert(numberCorrespondences > 6);','if(numberCorrespondences < 7) throw 1;')]),
('r-two','',[(R,'assert(numberCorrespondences == 6);','assert(numberCorrespondences >= 6); assert(numberCorrespondences <= 6);')]),
('r-size','',[(A,'assert(indices.size() > 5);','const size_t n = indices.size(); assert(5 < n && "too few");')]),
('r-not','',[(A,'assert(indices.size() > 5);','assert(!(indices.size() < 6));')]),
('r-loop','',[(R,'  for( size_t i = 0; i < numberCorrespondences; i++ )\n  {\n    //bearingVector_t f = adapter.getBearingVector1(indices[i]);','  size_t i = numberCorrespondences;\n  while( i-- > 0 )\n  {\n    //bearingVector_t f = adapter.getBearingVector1(indices[i]);')]),
('r-neq','',[(R,'  for( size_t i = 0; i < numberCorrespondences; i++ )\n  {\n    //bearingVector_t f = adapter.getBearingVector1(indices[i]);','  for( int i = 0; i != (int) numberCorrespondences; ++i )\n  {\n    //bearingVector_t f = adapter.getBearingVector1(indices[i]);')]),
]
