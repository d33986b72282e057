A='src/absolute_pose/methods.cpp'; R='src/relative_pose/methods.cpp'; RM='src/relative_pose/modules/main.cpp'; T='include/opengv/types.hpp'
ALL=['L05']
M=[
('sac','L05',[('include/opengv/sac/SampleConsensus.hpp','  EIGEN_MAKE_ALIGNED_OPERATOR_NEW\n','')]),
('geout','L05',[(T,'  EIGEN_MAKE_ALIGNED_OPERATOR_NEW\n','',True)]),
('tr','L05',[(T,'std::vector<transformation_t, Eigen::aligned_allocator<transformation_t> >','std::vector<transformation_t>')]),
('pair','L05',[(RM,'std::vector< myPair_ge, Eigen::aligned_allocator<myPair_ge> > pairs;','std::vector< myPair_ge > pairs;')]),
('l1','L05',[(RM,'  Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);','  std::vector<Eigen::Vector2d> extra; extra.push_back(Eigen::Vector2d(G(0,0),G(0,1))); if(extra[0][0]>1e300) return;\n  Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);')]),
('shared','L05',[(RM,'  Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);','  std::shared_ptr<Eigen::Matrix4d> ex = std::make_shared<Eigen::Matrix4d>(G);\n  Eigen::EigenSolver< Eigen::Matrix4d > Eig(*ex,true);'),(RM,'#include <vector>','#include <vector>\n#include <memory>')]),
('r-shared','',[(RM,'  Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);','  std::shared_ptr<Eigen::Matrix4d> ex(new Eigen::Matrix4d(G));\n  Eigen::EigenSolver< Eigen::Matrix4d > Eig(*ex,true);'),(RM,'#include <vector>','#include <vector>\n#include <memory>')]),
('r-v3','',[(T,'typedef std::vector<point_t, Eigen::aligned_allocator<point_t> >','typedef std::vector<point_t, std::allocator<point_t> >')]),
('r-ad','',[('include/opengv/point_cloud/PointCloudAdapter.hpp','  EIGEN_MAKE_ALIGNED_OPERATOR_NEW\n','')]),
('memb','L05',[('include/opengv/math/Sturm.hpp','  EIGEN_MAKE_ALIGNED_OPERATOR_NEW\n',''),('include/opengv/math/Sturm.hpp','  size_t _dimension;','  size_t _dimension;\n  Eigen::Vector4d _scratch;')]),
]
