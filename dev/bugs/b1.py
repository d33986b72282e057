RH='include/opengv/sac/implementation/Ransac.hpp'; MR='include/opengv/sac/implementation/MultiRansac.hpp'; LM='include/opengv/sac/implementation/Lmeds.hpp'
SP='include/opengv/sac/implementation/SampleConsensusProblem.hpp'; MSP='include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp'
BUGS=[
dict(id='ransac-later-tie-wins',property='S01',edits=[(RH,'if(n_inliers_count > n_best_inliers_count)','if(n_inliers_count > n_best_inliers_count ||\n        (n_inliers_count == n_best_inliers_count && skipped_count > 0) )')],
 needs='an invalid hypothesis early in the run followed by a hypothesis with the same score as the best so far',
 breaks='A later hypothesis that only equals the best score replaces the first best one.',
 demo='''#include "toy.hpp"
int main() {
  std::shared_ptr<Toy> p(new Toy(20, 2));
  p->valid = [](int c) { return c != 0; };
  p->res = [](double m, int i) { return i < 10 ? 0.0 : 1.0; };
  opengv::sac::Ransac<Toy> r(40, 0.5, 0.99); r.sac_model_ = p;
  REQUIRE(r.computeModel()); REQUIRE(r.model_coefficients_ == 1.0); REQUIRE(r.inliers_.size() == 10); return 0; }
'''),
dict(id='multiransac-skip-budget-refilled',property='S03',edits=[(MR,'    n_inliers_count = sac_model_->countWithinDistance( model_coefficients, threshold_ );','    skipped_count = 0;\n    n_inliers_count = sac_model_->countWithinDistance( model_coefficients, threshold_ );')],
 needs='invalid hypotheses interleaved with valid ones, more than ten times the maximum number of iterations in total',
 breaks='More than ten times max_iterations invalid hypotheses are discarded in one multi-camera run.',
 demo='''#include "toy.hpp"
int main() {
  std::vector<int> N(2, 20), S(2, 2);
  std::shared_ptr<MToy> p(new MToy(N, S)); int bad = 0;
  p->valid = [&bad](int c) { if (c % 60 == 59) return true; bad++; return false; };
  p->res = [](double, int, int i) { return i == 0 ? 0.0 : 1.0; };
  opengv::sac::MultiRansac<MToy> r(10, 0.5, 0.99); r.sac_model_ = p;
  r.computeModel(); REQUIRE(bad <= 100); return 0; }
'''),
dict(id='multi-count-nonstrict-later-frames',property='S05',edits=[(MSP,'''      if( dist[j][i] < threshold )
        ++count;''','''      if( !(dist[j][i] > threshold) )
        ++count;''')],
 needs='a correspondence whose residual equals the threshold exactly (e.g. a quantised or zero residual with zero threshold)',
 breaks='Counting uses <= while selection uses <; counts disagree with selected inliers.',
 demo='''#include "toy.hpp"
int main() {
  std::vector<int> N(3, 5), S(3, 1); MToy p(N, S);
  p.res = [](double, int f, int i) { return 0.25 * (f + i); };
  std::vector<std::vector<int> > in; p.selectWithinDistance(0, 0.75, in);
  int n = 0; for (size_t f = 0; f < in.size(); f++) n += in[f].size();
  REQUIRE(n == p.countWithinDistance(0, 0.75)); return 0; }
'''),
dict(id='setindices-stale-shuffle',property='S06',edits=[(SP,'''  indices_.reset( new std::vector<int>(indices) );
  shuffled_indices_ = *indices_;''','''  const bool sameSize = shuffled_indices_.size() == indices.size();
  indices_.reset( new std::vector<int>(indices) );
  if( !sameSize )
    shuffled_indices_ = *indices_;''')],
 needs='setting a new index set of the same size as the previous one on an existing problem',
 breaks='Samples are drawn from the previous index set although a new one was set.',
 demo='''#include "toy.hpp"
struct T2 : Toy { T2() : Toy(10, 4) {} };
int main() {
  T2 p; std::vector<int> a, b; for (int i = 0; i < 6; i++) { a.push_back(i); b.push_back(20 + i); }
  std::vector<int> s; int it = 0; p.setIndices(a); p.getSamples(it, s); p.setIndices(b);
  for (int k = 0; k < 20; k++) { p.getSamples(it, s); REQUIRE(s.size() == 4); for (int i = 0; i < 4; i++) REQUIRE(s[i] >= 20 && s[i] < 26); }
  return 0; }
'''),
dict(id='draw-uses-process-generator',property='S07',edits=[(MSP,'rnd() % (index_size - i)','(i == 0 ? rnd() : rand()) % (index_size - i)')],
 needs='other code seeding or drawing from the C library generator between two runs',
 breaks='Part of the sample is drawn from the process-wide C generator, so runs with the fixed seed are not reproducible.',
 demo='''#include "toy.hpp"
int main() {
  std::vector<int> N(2, 50), S(2, 5); std::vector<std::vector<int> > s1, s2; int it = 0;
  { MToy p(N, S); srand(1); p.getSamples(it, s1); }
  { MToy p(N, S); srand(777); p.getSamples(it, s2); }
  REQUIRE(s1 == s2); return 0; }
'''),
]
