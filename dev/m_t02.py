Q='src/math/quaternion.cpp'; CY='src/math/cayley.cpp'; A='src/math/arun.cpp'
CHECK='T02'
BAD=[
 ('qsign', [(Q,'q[2] *= sign(R(0,2)-R(2,0));','q[2] *= sign(R(2,0)-R(0,2));')]),
 ('q3sum', [(Q,'q[2] *= sign(R(2,1)+R(1,2));','q[2] *= sign(R(2,1)-R(1,2));')]),
 ('nan', [(Q,'q[0] *= sign(R(1,0)-R(0,1));','q[0] *= (R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1));')]),
 ('sign0', [(Q,'return x < 0.0 ? -1.0 : 1.0;','return x < 0.0 ? -1.0 : (x > 0.0 ? 1.0 : 0.0);'),(Q,'else if(q[1] >= q[0] && q[1] >= q[2] && q[1] >= q[3])','else if(false)')]),
 ('cay', [(CY,'R(1,2) = 2*(cayley[1]*cayley[2]-cayley[0]);','R(1,2) = 2*(cayley[1]*cayley[2]+cayley[0]);')]),
 ('cayinv', [(CY,'cayley[1] = C(0,2);','cayley[1] = -C(0,2);')]),
 ('arun', [(A,'R.determinant() < 0','R.determinant() > 0')]),
 ('aruncol', [(A,'V_prime.col(2) = -V.col(2);','V_prime.col(2) = V.col(2);'),(A,'V_prime.col(0) = V.col(0);','V_prime.col(0) = -V.col(0);')]),
 ('aruntr', [(A,'  rotation_t R = V * U.transpose();','  rotation_t R = U * V.transpose();')]),
]
GOOD=[
 ('inline', [(Q,'q[0] *= +1.0;','')]),
 ('branch', [(Q,'return x < 0.0 ? -1.0 : 1.0;','if(x >= 0.0) return 1.0;\n  return -1.0;')]),
 ('max', [(Q,'if(q[0] < 0.0) q[0] = 0.0;','q[0] = std::max(q[0],0.0);')]),
 ('norm', [(Q,'double scale = sqrt(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3]);','double scale = q.norm();')]),
 ('cayscale', [(CY,'double scale = 1+pow(cayley[0],2)+pow(cayley[1],2)+pow(cayley[2],2);','double scale = 1+cayley.squaredNorm();')]),
 ('cayred', [(CY,'  R = (1/scale) * R;','  R /= scale;')]),
 ('arundet', [(A,'R.determinant() < 0','V.determinant()*U.determinant() < 0')]),
 ('arunV', [(A,'    Eigen::Matrix3d V_prime;\n    V_prime.col(0) = V.col(0);\n    V_prime.col(1) = V.col(1);\n    V_prime.col(2) = -V.col(2);\n    R = V_prime * U.transpose();','    V.col(2) *= -1.0;\n    R = V * U.transpose();')]),
]
ALL=['T02']
M=[(n,'T02',e) for n,e in BAD]+[('r-'+n,'',e) for n,e in GOOD]
