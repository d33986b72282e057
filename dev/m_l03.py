
A='src/absolute_pose/methods.cpp'; AM='src/absolute_pose/modules/main.cpp'; R='src/relative_pose/methods.cpp'; RM='src/relative_pose/modules/main.cpp'; EP='src/absolute_pose/modules/Epnp.cpp'
ES='src/relative_pose/modules/eigensolver/modules.cpp'; AR='src/math/arun.cpp'; TR='src/triangulation/methods.cpp'; CS='src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp'
ALL=['L03']
M=[
('neg','L03',[(A,'    A(2*i+1,11) = -weights(3,i)*f[1];','    A(2*i+1,12) = -weights(3,i)*f[1];')]),
('w5','L03',[(A,'    A(2*i,9)  =  weights(3,i)*f[2];','    A(2*i,9)  =  weights(4,i)*f[2];')]),
('inv','L03',[(A,'  for( size_t i = 0; i < 12; i++ )\n  {\n    if( D(i,0) > 1.e-6 )','  for( size_t i = 0; i <= 12; i++ )\n  {\n    if( D(i,0) > 1.e-6 )')]),
('gpnp-last','L03',[(AM,'    solution += factors[i]*V.col(12-factors.size()+i);','    solution += factors[i]*V.col(13-factors.size()+i);')]),
('epnp4','L03',[(EP,'    for(int i = 0; i < 4; i++)\n      betas[i] += X[i];','    for(int i = 0; i <= 4; i++)\n      betas[i] += X[i];')]),
('stew','L03',[(RM,'  M(9,6) = 1.0;','  M(10,6) = 1.0;')]),
('stew-blk','L03',[(RM,'  M.block(3,0,2,10) = -A3.block(4,0,2,10);','  M.block(3,0,2,10) = -A3.block(9,0,2,10);')]),
('stew-dim','L03',[(RM,'  M.block(3,0,2,10) = -A3.block(4,0,2,10);','  M.block(3,0,2,10) = -A3.block(4,0,3,10);')]),
('groeb','L03',[(AM,'  factors[0] = -groebnerMatrix3(13,17)/groebnerMatrix3(13,16);','  factors[0] = -groebnerMatrix3(13,18)/groebnerMatrix3(13,16);')]),
('svd','L03',[(CS,'translation_t ta = scale*SVD.matrixU().col(2);','translation_t ta = scale*SVD.matrixU().col(3);')]),
('tri','L03',[(TR,'P1.row(2)','P1.row(3)')]),
('fac','L03',[(AM,'  factors[1] =\n      -(groebnerMatrix3(12,16)','  factors[2] =\n      -(groebnerMatrix3(12,16)')]),
('arr','L03',[(EP,'double Rs[4][3][3], ts[4][3];','double Rs[3][3][3], ts[4][3];')]),
('r-loop','',[(EP,'    for(int i = 0; i < 4; i++)\n      betas[i] += X[i];','    for(int i = 3; i >= 0; i--)\n      betas[i] += X[i];')]),
('r-while','',[(EP,'    for(int i = 0; i < 4; i++)\n      betas[i] += X[i];','    int i = 0; while( true ) { if( i == 4 ) break; betas[i] += X[i]; ++i; }')]),
('r-rows','',[(EP,'    for(int i = 0; i < 4; i++)\n      betas[i] += X[i];','    for(int i = 0; i < X.rows(); i++)\n      betas[i] += X[i];')]),
('r-half','',[(EP,'    for(int i = 0; i < 4; i++)\n      betas[i] += X[i];','    for(int i = 0; i < 2; i++) {\n      betas[2*i] += X[2*i]; betas[2*i+1] += X[2*i+1]; }')]),
('r-prev','',[(EP,'    for(int i = 0; i < 4; i++)\n      betas[i] += X[i];','    for(int i = 0; i < 4; i++) {\n      double pr = i > 0 ? X[i-1] : 0.0; betas[i] += X[i] + (pr - pr); }')]),
('r-n','',[(A,'  double gamma = 0.0;','  double gamma = 0.0;\n  double buf[4] = {0,0,0,0}; for( size_t i = 0; i < indices.size() && i < 4; i++ ) buf[i] = 1.0; for( size_t i = 0; i < std::min(indices.size(),(size_t)4); i++ ) gamma += buf[i]; gamma = 0.0;')]),
('r-brk','',[(A,'  double gamma = 0.0;','  double gamma = 0.0;\n  double buf[4] = {0,0,0,0}; for( size_t i = 0; i < indices.size(); i++ ) { if( i >= 4 ) break; buf[i] = 1.0; gamma += buf[i]; } gamma = 0.0;')]),
('r-idx','',[(A,'  double gamma = 0.0;','  double gamma = 0.0;\n  int best = -1; double bv = 1e300; for( int i = 0; i < 3; i++ ) { if( F(i,i) < bv ) { bv = F(i,i); best = i; } }\n  if( best >= 0 ) gamma = F(best,0); gamma = 0.0;')]),
]
