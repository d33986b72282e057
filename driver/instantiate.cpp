// Instantiates the header-only consensus templates for every problem class, so
// that their bodies can be analysed with all types resolved.
#include <cmath>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <vector>
#include <Eigen/Eigen>
#include <opengv/types.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
using namespace opengv;
template class sac::Ransac<sac_problems::absolute_pose::AbsolutePoseSacProblem>;
template class sac::Ransac<sac_problems::relative_pose::CentralRelativePoseSacProblem>;
template class sac::Ransac<sac_problems::relative_pose::EigensolverSacProblem>;
template class sac::Ransac<sac_problems::relative_pose::NoncentralRelativePoseSacProblem>;
template class sac::Ransac<sac_problems::relative_pose::RotationOnlySacProblem>;
template class sac::Ransac<sac_problems::relative_pose::TranslationOnlySacProblem>;
template class sac::Ransac<sac_problems::point_cloud::PointCloudSacProblem>;
template class sac::Lmeds<sac_problems::absolute_pose::AbsolutePoseSacProblem>;
template class sac::Lmeds<sac_problems::relative_pose::CentralRelativePoseSacProblem>;
template class sac::Lmeds<sac_problems::relative_pose::EigensolverSacProblem>;
template class sac::Lmeds<sac_problems::relative_pose::NoncentralRelativePoseSacProblem>;
template class sac::Lmeds<sac_problems::relative_pose::RotationOnlySacProblem>;
template class sac::Lmeds<sac_problems::relative_pose::TranslationOnlySacProblem>;
template class sac::Lmeds<sac_problems::point_cloud::PointCloudSacProblem>;
template class sac::MultiRansac<sac_problems::absolute_pose::MultiNoncentralAbsolutePoseSacProblem>;
template class sac::MultiRansac<sac_problems::relative_pose::MultiCentralRelativePoseSacProblem>;
template class sac::MultiRansac<sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem>;
