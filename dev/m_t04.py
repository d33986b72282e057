R='src/math/roots.cpp'; S='src/math/Sturm.cpp'
ALL=['T04']
M=[
# faults
('o3-sign','T04',[(R,'C = std::complex<double>(-pow(-C3,(1.0/3.0)),0.0);','C = std::complex<double>(pow(-C3,(1.0/3.0)),0.0);')]),
('o3-pi','T04',[(R,'    if( C3.real() < 0 )\n      a3 += M_PI;\n','')]),
('o3-u','T04',[(R,'u3*C + theta_0 / (u3*C)','u3*C + theta_0 / (u2*C)')]),
('o3-cancel','T04',[(R,'0.5 * (theta_1 < 0.0 ? theta_1 - sqrt(term) : theta_1 + sqrt(term))','0.5 * (theta_1 + sqrt(term))')]),
('o3-triple','T04',[(R,'    return std::vector<double>( 3, -b/(3.0*a) );','    return std::vector<double>( 3, -b/a );')]),
('o3-term','T04',[(R,'27.0*a*a*d','27.0*a*d')]),
('o4-gamma','T04',[(R,'-B*D/(4*A_pw2)+E/A','-B*D/(4*A_pw2)+E')]),
('o4-gamma2','T04',[(R,'-B*D/(4*A_pw2)+E/A','-B*D/(4*A_pw2)+E',True)]),
('o4-P0','T04',[(R,'y = -5.0*alpha/6.0-pow(Q,(1.0/3.0));','y = -5.0*alpha/6.0+pow(Q,(1.0/3.0));')]),
('o4-biq','T04',[(R,'std::complex<double> x2 = sqrt((-alpha-z)/2.0);','std::complex<double> x2 = sqrt((alpha-z)/2.0);')]),
('o4-nobiq','T04',[(R,'if( beta == 0.0 )','if( beta == 0.0 && gamma == 0.0 )')]),
('o4-w','T04',[(R,'0.5*(-w-sqrt(-(3.0*alpha+2.0*y-2.0*beta/w)))','0.5*(-w-sqrt(-(3.0*alpha+2.0*y+2.0*beta/w)))',True)]),
('st-deriv','T04',[(S,'_C(1,i) = _C(0,i-1) * (_dimension-i);','_C(1,i) = _C(0,i-1) * (_dimension-i+1);')]),
('st-lead','T04',[(S,'while( lead < p2.cols() && p2(0,lead) == 0.0 )\n    lead++;','')]),
('st-sign','T04',[(S,'r = -p1;','r = p1;')]),
('st-zero','T04',[(S,'    r.setZero();\n    return;','    return;')]),
('st-chain0','T04',[(S,'      if( signs(i,0) < 0.0 )\n','      if( signs(i,0) <= 0.0 )\n')]),
('st-chain2','T04',[(S,'signChanges++;\n        positive = true;','signChanges++;\n        positive = false;',True)]),
('st-bound','T04',[(S,'double bound = 1.0001 * (max1 + max2) + std::numeric_limits<double>::min();','double bound = max1 + max2;')]),
('st-bound2','T04',[(S,'double bound = 1.0001 * (max1 + max2)','double bound = 1.5 * (max1)')]),
('st-max2','T04',[(S,'double max2 = 0.0;','double max2 = -1.0;')]),
('st-div','T04',[(S,'Ptr upperBracket(new Bracket(center,_upperBound,_upperBoundChanges,true));','Ptr upperBracket(new Bracket(center,_upperBound,_lowerBoundChanges,true));')]),
('st-dividable','T04',[(S,'if( numberRoots() == 1 && (_upperBound - _lowerBound ) < eps )','if( (_upperBound - _lowerBound ) < eps )')]),
('st-push','T04',[(S,'if( bracket->numberRoots() > 0 )\n        roots.push_back','if( bracket->numberRoots() >= 0 )\n        roots.push_back')]),
('st-order','T04',[(S,'size_t changes = evaluateChain2((*it)->lowerBound());','size_t changes = evaluateChain2((*it)->upperBound());')]),
('st-init','T04',[(S,'stack.push_back(Bracket::Ptr(new Bracket(-absoluteBound,absoluteBound)));','stack.push_back(Bracket::Ptr(new Bracket(0.0,absoluteBound)));',True)]),
('st-newton','T04',[(S,'roots[r] = roots[r] - (value(0,0)/derivative(0,0));','roots[r] = roots[r] + (value(0,0)/derivative(0,0));')]),
('st-conf','T04',[(S,'if( newRoot < bracket->lowerBound() || newRoot > bracket->upperBound() )','if( newRoot < bracket->lowerBound() )')]),
('st-val','T04',[(S,'          matValue = _C.row(0) * monomials;\n          \n          double newValue','          double newValue')]),
# the same behaviour
('ok-atan2','',[(R,'double a3 = atan(C3.imag() / C3.real());\n    if( C3.real() < 0 )\n      a3 += M_PI;','double a3 = atan2(C3.imag(),C3.real());')]),
('ok-polar','',[(R,'C = std::complex<double>(r*cos(a3/3.0),r*sin(a3/3.0));','C = std::polar(r,a3/3.0);')]),
('ok-abs','',[(R,'double r3 = sqrt(pow(C3.real(),2.0)+pow(C3.imag(),2.0));','double r3 = std::abs(C3);')]),
('ok-order','',[(R,'  roots.push_back(r1.real());\n  roots.push_back(r2.real());','  roots.push_back(r2.real());\n  roots.push_back(r1.real());')]),
('ok-cbrt','',[(R,'''    if( C3 < 0.0 )
      C = std::complex<double>(-pow(-C3,(1.0/3.0)),0.0);
    else
      C = std::complex<double>( pow( C3,(1.0/3.0)),0.0);''','    C = std::complex<double>(cbrt(C3),0.0);')]),
('ok-loopcopy','',[(S,'for( size_t i = 1; i < _dimension; i++ )\n    _C(1,i) = _C(0,i-1) * (_dimension-i);','size_t degree = _dimension-1;\n  for( size_t i = 0; i < degree; i++ )\n    _C(1,i+1) = _C(0,i) * double(degree-i);')]),
('ok-cauchy','',[(S,'double bound = 1.0001 * (max1 + max2)','double bound = 2.5 * (max1 + max2)')]),
('ok-back','',[(S,'''    Bracket::Ptr bracket = stack.front();
    stack.pop_front();''','''    Bracket::Ptr bracket = stack.back();
    stack.pop_back();''')]),
('ok-back2','',[(S,'''    Bracket::Ptr bracket = stack.front();
    stack.pop_front();''','''    Bracket::Ptr bracket = stack.back();
    stack.pop_back();''',True)]),
('ok-newton7','',[(S,'for(size_t k = 0; k < 5; k++ )','for(size_t k = 0; k < 7; k++ )')]),
('ok-horner','',[(S,'''      Eigen::MatrixXd value = _C.row(0) * monomials;
      Eigen::MatrixXd derivative = _C.row(1) * monomials;

      //correction
      roots[r] = roots[r] - (value(0,0)/derivative(0,0));''','''      double value = 0.0;
      double derivative = 0.0;
      for( size_t i = 0; i < _dimension; i++ )
      {
        derivative = derivative * roots[r] + value;
        value = value * roots[r] + _C(0,i);
      }

      //correction
      roots[r] -= value/derivative;''')]),
('ok-variations','',[(S,'''  bool positive = false;
  if( signs(0,0) > 0.0 )
    positive = true;
''','''  bool positive = signs(0,0) > 0.0;
''')]),
('ok-continue','',[(S,'''    else
    {
      if( bracket->numberRoots() > 0 )
        roots.push_back(0.5 * (bracket->lowerBound() + bracket->upperBound()));
    }''','''    else if( bracket->numberRoots() == 0 )
      continue;
    else
    {
      double estimate = bracket->lowerBound() + 0.5 * (bracket->upperBound() - bracket->lowerBound());
      roots.push_back(estimate);
    }''',True)]),
('ok-emptyloop','',[(S,'while( !stack.empty() )','while( stack.size() > 0 )',True)]),
('ok-third','',[(S,'double center = (_upperBound + _lowerBound) / 2.0;\n  Ptr','double center = _lowerBound + 0.5 * (_upperBound - _lowerBound);\n  Ptr')]),
]
