NA='src/absolute_pose/NoncentralAbsoluteAdapter.cpp'
NM='src/absolute_pose/NoncentralAbsoluteMultiAdapter.cpp'
CM='src/relative_pose/CentralRelativeMultiAdapter.cpp'
RM='src/relative_pose/NoncentralRelativeMultiAdapter.cpp'
MM='src/relative_pose/MANoncentralRelativeMulti.cpp'
NR='src/relative_pose/NoncentralRelativeAdapter.cpp'
CW='src/relative_pose/CentralRelativeWeightingAdapter.cpp'
MB='include/opengv/relative_pose/RelativeMultiAdapterBase.hpp'
AB='include/opengv/absolute_pose/AbsoluteAdapterBase.hpp'
MR='src/relative_pose/MANoncentralRelative.cpp'
PA='src/point_cloud/MAPointCloud.cpp'
ALL=['A01','A02','A03']
M=[
('corr','A01',[(NR,'return _camOffsets[_camCorrespondences2[index]]','return _camOffsets[_camCorrespondences1[index]]')]),
('rot','A01',[(NA,'return _camRotations[_camCorrespondences[index]]','return _camRotations[index]')]),
('weight','A01',[(CW,'return _weights[index]','return 1.0')]),
('ma','A01',[(MR,'_bearingVectors2[index * 6 + 4]','_bearingVectors2[index * 6 + 3]')]),
('pc','A01',[(PA,'_points2[ index * 3 + 2 ]','_points1[ index * 3 + 2 ]')]),
('base','A01',[(MB,'{ return getCamRotation( multiPairIndex(index) ); }','{ return getCamRotation( multiCorrespondenceIndex(index) ); }')]),
('ctor-swap','A01',[(NR,'_camCorrespondences2(camCorrespondences2)','_camCorrespondences2(camCorrespondences1)')]),
('off','A02',[(NM,'singleIndexOffset += bearingVectors[frameIndex]->size();','singleIndexOffset += bearingVectors[0]->size();')]),
('off-order','A02',[(CM,'    singleIndexOffsets.push_back(singleIndexOffset);\n',''),(CM,'    singleIndexOffset += bearingVectors2[pairIndex]->size();','    singleIndexOffset += bearingVectors2[pairIndex]->size();\n    singleIndexOffsets.push_back(singleIndexOffset);')]),
('tab','A02',[(MM,'multiKeypointIndices.push_back(correspondenceIndex);','multiKeypointIndices.push_back(correspondenceIndex+pairIndex);')]),
('conv','A02',[(RM,'pairIndex, multiIndices[pairIndex][correspondenceIndex] ));','pairIndex, correspondenceIndex ));')]),
('total','A02',[(MB,'for(size_t i = 0; i < getNumberPairs(); i++)','for(size_t i = 1; i < getNumberPairs(); i++)')]),
('npairs','A02',[(MB,'numberCorrespondences += getNumberCorrespondences(i);','numberCorrespondences += getNumberCorrespondences(0);')]),
('prior-lost','A03',[(NA,'AbsoluteAdapterBase(R),','AbsoluteAdapterBase(),')]),
('prior-tr','A03',[(AB,'{ _R = R; };','{ _R = R.transpose(); };')]),
('prior-both','A03',[(AB,'{ _t = t; };','{ _t = t; _R = Eigen::Matrix3d::Identity(); };')]),
('data-write','A03',[(MM,'  bearingVector[0] = _bearingVectors1','  _bearingVectors1[pairIndex][correspondenceIndex*3] *= 1.0;\n  bearingVector[0] = _bearingVectors1')]),
('const','A03',[(CW,'return _bearingVectors1[index]','const_cast<bearingVectors_t&>(_bearingVectors1)[index].normalize(); return _bearingVectors1[index]')]),
# preserving
('p-acc','',[(NM,'    singleIndexOffsets.push_back(singleIndexOffset);','    singleIndexOffsets.push_back((int) multiFrameIndices.size());')]),
('p-loop','',[(MM,'''  bearingVector[0] =''','''  for(int k = 0; k < 3; k++) bearingVector[k] = _bearingVectors1[pairIndex][correspondenceIndex * 3 + k];
  if(0) bearingVector[0] =''')]),
('p-idx','',[(NR,'return _camOffsets[_camCorrespondences2[index]]','const int cam = _camCorrespondences2[index]; return _camOffsets[cam]')]),
('p-map','',[(PA,'''  point[0] = _points1[ 3 * index];''','''  point = Eigen::Map<const Eigen::Vector3d>(_points1 + 3*index);
  point[0] = _points1[ 3 * index];''')]),
('p-const','',[(NA,'return _bearingVectors[index]','return _bearingVectors.at(index)')]),
('p-while','',[(MB,'''    for(size_t i = 0; i < getNumberPairs(); i++)
      numberCorrespondences += getNumberCorrespondences(i);''','''    size_t i = 0; while(i < getNumberPairs()) { numberCorrespondences += getNumberCorrespondences(i); ++i; }''')]),
('p-conv','',[(RM,'return singleIndexOffsets[pairIndex]+correspondenceIndex;','int off = singleIndexOffsets[pairIndex]; off += correspondenceIndex; return off;')]),
('p-zero','',[('src/relative_pose/CentralRelativeAdapter.cpp','return Eigen::Vector3d::Zero()','translation_t t; t.setZero(); return t')]),
('p-csr','',[(NM,'  size_t singleIndexOffset = 0;','  size_t singleIndexOffset = 0; singleIndexOffsets.push_back(0);'),(NM,'    singleIndexOffsets.push_back(singleIndexOffset);\n',''),(NM,'singleIndexOffset += bearingVectors[frameIndex]->size();','singleIndexOffset += bearingVectors[frameIndex]->size(); singleIndexOffsets.push_back(singleIndexOffset);')]),
('p-reserve','',[(NM,'  size_t singleIndexOffset = 0;','  size_t singleIndexOffset = 0; singleIndexOffsets.reserve(bearingVectors.size());')]),
]
