E='src/absolute_pose/modules/Epnp.cpp'; H='include/opengv/absolute_pose/modules/Epnp.hpp'; U2='src/absolute_pose/modules/upnp2.cpp'; U4='src/absolute_pose/modules/upnp4.cpp'; A='src/absolute_pose/methods.cpp'
MC='src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp'; S='src/math/Sturm.cpp'; SP='include/opengv/sac/SampleConsensusProblem.hpp'
G='src/math/gauss_jordan.cpp'
ALL=['L04']
M=[
('last','L04',[(U4,'  for( int r = 0; r < 141; r++ )\n    delete M2[r];','  for( int r = 0; r < 140; r++ )\n    delete M2[r];')]),
('twice','L04',[(U4,'  for( int r = 0; r < 141; r++ )\n    delete M2[r];','  for( int r = 0; r < 141; r++ )\n    delete M2[r/2*2];')]),
('early','L04',[(U2,'Action(15,14) = 1.0;','if( Action(15,13) > 5.0 ) return;\nAction(15,14) = 1.0;')]),
('dtor','L04',[(E,'  delete [] signs; //added\n}','}')]),
('dtor-form','L04',[(E,'  delete [] pcs;\n  delete [] signs; //added\n}','  delete pcs;\n  delete [] signs; //added\n}')]),
('set-us','L04',[(E,'    if (us != 0) delete [] us;\n','')]),
('set-inv','L04',[(E,'    if (us != 0) delete [] us;\n','    if (us == 0) delete [] us;\n')]),
('set-twice','L04',[(E,'    if (us != 0) delete [] us;\n','    if (us != 0) delete [] us;\n    if (alphas != 0) delete [] us;\n')]),
('set-early','L04',[(E,'    pcs = new double[3 * maximum_number_of_correspondences];','    if( n < 4 ) return;\n    pcs = new double[3 * maximum_number_of_correspondences];')]),
('ctor','L04',[(E,'  signs = 0; //added\n','')]),
('copy','L04',[(A,'  PnP.compute_pose','  modules::Epnp PnP2(PnP);\n  PnP2.compute_pose')]),
('share-del','L04',[(MC,'    std::shared_ptr<translations_t> translations(new translations_t());','    translations_t * tr = new translations_t();\n    std::shared_ptr<translations_t> translations(tr);\n    if( pairIndex > 5 ) delete tr;')]),
('raw','L04',[(S,'  stack.push_back(Bracket::Ptr(new Bracket(-absoluteBound,absoluteBound)));','  Bracket * top = new Bracket(-absoluteBound,absoluteBound);\n  stack.push_back(Bracket::Ptr(new Bracket(*top)));')]),
('vd','L04',[(SP,'  virtual ~SampleConsensusProblem()','  ~SampleConsensusProblem()')]),
('uaf','L04',[(U4,'  for( int r = 0; r < 141; r++ )\n    delete M2[r];','  for( int r = 0; r < 141; r++ )\n    delete M2[r];\n  Action(7,3) = (*(M2[3]))[48] > 0 ? 1.0 : 1.5;')]),
('gj-lose','L04',[(G,'    std::swap( matrix[row], matrix[frontRow] );','    matrix[frontRow] = matrix[row];')]),
('r-gj-swap','',[(G,'    std::swap( matrix[row], matrix[frontRow] );','    std::vector<double> * swapRow = matrix[row];\n    matrix[row] = matrix[frontRow];\n    matrix[frontRow] = swapRow;')]),
('r-helper','',[(U4,'  for( int r = 0; r < 141; r++ )\n    delete M2[r];','  releaseRows(M2);'),(U4,'void\nopengv::absolute_pose::modules::upnp::setupAction_sym_gj','static void releaseRows( std::vector<std::vector<double>*> & rows )\n{\n  for( size_t r = 0; r < rows.size(); r++ )\n    delete rows[r];\n}\n\nvoid\nopengv::absolute_pose::modules::upnp::setupAction_sym_gj')]),
('r-range','',[(U4,'  for( int r = 0; r < 141; r++ )\n    delete M2[r];','  for( std::vector<double> * row : M2 )\n    delete row;')]),
('r-while','',[(U4,'  for( int r = 0; r < 141; r++ )\n    delete M2[r];','  while( !M2.empty() )\n  {\n    delete M2.back();\n    M2.pop_back();\n  }')]),
('r-create','',[(U4,'    std::vector<double> * row = new std::vector<double>();\n    for( int c = 0; c < 149; c++ )\n      row->push_back(0.0);\n    M2.push_back(row);','    M2.push_back(new std::vector<double>(149,0.0));')]),
('r-epnp-helper','',[(E,'    if (pws != 0) delete [] pws;\n    if (us != 0) delete [] us;\n    if (alphas != 0) delete [] alphas;\n    if (pcs != 0) delete [] pcs;\n    if (signs != 0) delete [] signs; //added\n','    release();\n'),(E,'  delete [] pws;\n  delete [] us;\n  delete [] alphas;\n  delete [] pcs;\n  delete [] signs; //added\n}','  release();\n}\n\nvoid\nopengv::absolute_pose::modules::Epnp::release()\n{\n  delete [] pws;\n  delete [] us;\n  delete [] alphas;\n  delete [] pcs;\n  delete [] signs;\n}'),(H,'  int * signs; //added!','  void release();\n  int * signs; //added!')]),
('r-epnp-tmp','',[(E,'    pws = new double[3 * maximum_number_of_correspondences];','    double * fresh = new double[3 * maximum_number_of_correspondences];\n    pws = fresh;')]),
('r-epnp-guard','',[(E,'  if (maximum_number_of_correspondences < n)\n  {','  if (maximum_number_of_correspondences >= n)\n    return;\n  {')]),
('r-epnp-template','',[(E,'    if (us != 0) delete [] us;\n','    drop(us);\n'),(E,'opengv::absolute_pose::modules::Epnp::Epnp(void)','template<typename T> static void drop( T * & p )\n{\n  if( p != nullptr )\n  {\n    delete [] p;\n    p = nullptr;\n  }\n}\n\nopengv::absolute_pose::modules::Epnp::Epnp(void)')]),
('r-uptr','',[(S,'  Ptr lowerBracket(new Bracket(_lowerBound,center,_lowerBoundChanges,false));','  Bracket * lower = new Bracket(_lowerBound,center,_lowerBoundChanges,false);\n  Ptr lowerBracket(lower);')]),
('r-makeshared','',[(S,'  Ptr lowerBracket(new Bracket(_lowerBound,center,_lowerBoundChanges,false));','  Ptr lowerBracket = std::make_shared<Bracket>(_lowerBound,center,_lowerBoundChanges,false);')]),
]
