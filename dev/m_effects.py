SB='include/opengv/sac/implementation/SampleConsensusProblem.hpp'
SH='include/opengv/sac/SampleConsensusProblem.hpp'
MB='include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp'
EP='src/absolute_pose/modules/Epnp.cpp'
AM='src/absolute_pose/methods.cpp'
ES='src/sac_problems/relative_pose/EigensolverSacProblem.cpp'
MN='src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp'
AH='include/opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp'
NH='include/opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp'
RM='src/relative_pose/modules/main.cpp'
TR='src/triangulation/methods.cpp'
MC='src/math/cayley.cpp'
ALL=['S07','L01']
M=[
('rand-pick','S07 L01',[(MN,'size_t binIndex = rnd() %','size_t binIndex = rand() %')]),
('static-A1','L01',[(EP,'double A1[6], A2[6];','static double A1[6], A2[6];')]),
('static-first','L01',[(TR,'  Eigen::MatrixXd A(4,4);','  static const Eigen::Matrix3d R12s = adapter.getR12();\n  Eigen::MatrixXd A(4,4);')]),
('file-counter','L01 S07',[(MC,'opengv::rotation_t\n','static int calls = 0;\nopengv::rotation_t\n'),(MC,'{\n  rotation_t R;','{\n  ++calls;\n  rotation_t R;')]),
('tls','L01',[(EP,'double A1[6], A2[6];','static thread_local double A1[6], A2[6];')]),
('seed-ignored','S07',[(AH,'sac::SampleConsensusProblem<model_t> (randomSeed),','sac::SampleConsensusProblem<model_t> (),')]),
('seed-other','S07',[(NH,'sac::SampleConsensusProblem<model_t> (randomSeed),','sac::SampleConsensusProblem<model_t> (asCentral),')]),
('seed-inv','S07',[(MB,'if (randomSeed)','if (!randomSeed)')]),
('seed-addr','S07',[(SB,'rng_alg_.seed(12345u)','rng_alg_.seed((unsigned)(size_t)this)')]),
('seed-lost','S07',[(SB,'std::bind(*rng_dist_, rng_alg_)','std::bind(*rng_dist_, std::mt19937(std::random_device()()))')]),
('reseed','S07',[(SB,'indices_->resize(N);','indices_->resize(N); rng_alg_.seed(time(0)); rng_gen_.reset(new std::function<int()>(std::bind(*rng_dist_, rng_alg_)));')]),
('reset-gen','S07',[(ES,'  double maxVariation = 0.1; //****** 0.01 ******//','  double maxVariation = 0.1; *rng_gen_ = std::bind(*rng_dist_, std::mt19937());')]),
('timebudget','S07',[(AM,'  assert(indices.size()>5);','  if(clock() % 7 == 0) std::abs(3);\n  assert(indices.size()>5);')]),
('cout-prec','L01',[(RM,'cout << "','cout.precision(3); cout << "')]),
('setrandom','S07 L01',[(MC,'  cayley_t','  Eigen::Vector3d q; q.setRandom();\n  cayley_t')]),
('random_device','S07',[(ES,'((double) rnd())','((double) (std::random_device()() & 0x7fffffff))')]),
# preserving
('p-helper','',[(SB,'rng_alg_.seed(static_cast<unsigned>(time(0)) + static_cast<unsigned>(clock()) );','rng_alg_.seed(opengv::sac::clockSeed());'),(SB,'template<typename M>','namespace opengv { namespace sac { inline unsigned clockSeed(){ return static_cast<unsigned>(time(0)) + static_cast<unsigned>(clock()); } } }\ntemplate<typename M>')]),
('p-cond','',[(MB,'''  if (randomSeed)
    rng_alg_.seed(static_cast<unsigned>(time(0)) + static_cast<unsigned>(clock()) );
  else
    rng_alg_.seed(12345u);''','''  const unsigned s = !randomSeed ? 12345u : static_cast<unsigned>(time(0)) + static_cast<unsigned>(clock());
  rng_alg_.seed(s);''')]),
('p-const','',[(EP,'double A1[6], A2[6];','static const int N6 = 6; double A1[N6], A2[N6];')]),
('p-table','',[(MC,'opengv::rotation_t\n','namespace { const double two = 2.0; static double tab[2] = {1.0, 2.0}; }\nopengv::rotation_t\n'),(MC,'{\n  rotation_t R;','{\n  double s = tab[0]*two; (void)s;\n  rotation_t R;')]),
('p-lambda','',[(SB,'std::bind(*rng_dist_, rng_alg_)','[d = *rng_dist_, a = rng_alg_]() mutable { return d(a); }')]),
('p-rename','',[(AH,'bool randomSeed = true) :\n      sac::SampleConsensusProblem<model_t> (randomSeed)','bool rs = true) :\n      sac::SampleConsensusProblem<model_t> (rs)')]),
('p-cout','',[(RM,'std::cout << " lambda','std::cout << 3 << std::flush << " lambda')]),
('p-rnd','',[(SB,'rnd() % (index_size - i)','(*rng_gen_)() % (index_size - i)')]),
]
