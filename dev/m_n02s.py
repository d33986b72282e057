A='src/absolute_pose/methods.cpp'; R='src/relative_pose/methods.cpp'
AM='src/absolute_pose/modules/main.cpp'; EP='src/absolute_pose/modules/Epnp.cpp'
ALL=['N02']
M=[
('cot','N02',[(AM,'    if (cot_alpha < 0)','    if (cot_alpha > 0)')]),
('beta','N02',[(AM,'  if( cos_beta < 0 )','  if( cos_beta > 0 )')]),
('swap','N02',[(AM,'  if( f3(2,0) > 0)','  if( f3(2,0) < 0)')]),
('noswap','N02',[(AM,'  if( f3(2,0) > 0)','  if( f3(2,0) > 0 && f3(0,0) > 0 )')]),
('epnp-last','N02',[(EP,'  if( (pcs[2] < 0.0 && signs[0] > 0) || (pcs[2] > 0.0 && signs[0] < 0) )','  if( (pcs[2] < 0.0 && signs[number_of_correspondences-1] > 0) || (pcs[2] > 0.0 && signs[number_of_correspondences-1] < 0) )')]),
('epnp-one','N02',[(EP,'  if( (pcs[2] < 0.0 && signs[0] > 0) || (pcs[2] > 0.0 && signs[0] < 0) )','  if( pcs[2] < 0.0 )')]),
('epnp-sign','N02',[(EP,'  if(z > 0.0)\n','  if(x > 0.0)\n')]),
('17','N02',[(R,'fita.norm() < fitb.norm()','fita.norm() > fitb.norm()')]),
('kneip-sin','N02',[(AM,'    double sin_theta = sqrt(','    double sin_theta = -sqrt(')]),
]
