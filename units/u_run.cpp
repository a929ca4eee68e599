// Unit: the optimiser's run, its parts and the robust weights over matrix algebra (compiled against units/stubs/algebra).
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/Eigenvalues>
#include <stdexcept>
#include "localization/src/optimizer.cpp"
#include "localization/src/degenerate.cpp"
#include "localization/src/posevec.cpp"
#include "localization/src/robust.cpp"
#include "rotationlib/src/quaternion.cpp"
// any matching problem: what it makes of a pose
struct IrvcProblem
{
  int id;
  std::tuple<std::vector<Eigen::MatrixXd>, std::vector<Eigen::VectorXd>> Make(const int & x, const Eigen::Isometry3d & pose) const;
};
extern "C" {
void irvc_run(const int & x, const Eigen::Isometry3d & pose, const int max_iter, OptimizationResult * out)
{
  const Optimizer<IrvcProblem, int> optimizer(IrvcProblem{7}, max_iter);
  new (out) OptimizationResult(optimizer.Run(x, pose));
}
double irvc_huber(const double e, const double k) {return Huber(e, k);}
double irvc_dhuber(const double e, const double k) {return HuberDerivative(e, k);}
double irvc_huber1(const double e) {return Huber(e);}
double irvc_dhuber1(const double e) {return HuberDerivative(e);}
const Eigen::Isometry3d * irvc_res_pose(const OptimizationResult & r) {return &r.pose;}
const std::string * irvc_res_message(const OptimizationResult & r) {return &r.message;}
int irvc_res_iteration(const OptimizationResult & r) {return r.iteration;}
double irvc_res_error(const OptimizationResult & r) {return r.error;}
double irvc_res_scale(const OptimizationResult & r) {return r.error_scale;}
bool irvc_res_success(const OptimizationResult & r) {return r.success;}
}
