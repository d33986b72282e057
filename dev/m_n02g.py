import m_n02r
R='src/relative_pose/methods.cpp'; X='src/relative_pose/modules/eigensolver/modules.cpp'; RM='src/relative_pose/modules/main.cpp'
ALL=['N02','N01']
M=[x for x in m_n02r.M if x[0]=='r-eig-weight']+[
('r-ev-acos','',[(X,'  double beta = alpha/3;\n  double beta_jac1','  const double third = 1.0/3.0;\n  double beta = third*alpha;\n  double beta_jac1')]),
('r-ev-rows','',[(RM,'    fvec[0] = jacobian(0,0);\n    fvec[1] = jacobian(0,1);\n    fvec[2] = jacobian(0,2);','    fvec = jacobian.transpose();')]),
('r-ev-cbrt','',[(X,'  double w = pow(r,(1.0/3.0));\n  double w_jac1','  double w = std::cbrt(r);\n  double w_jac1')]),
]
