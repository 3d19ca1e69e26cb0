#pragma once
#include "../capture.h"
#include <string>
namespace LexLS
{
using Index = Eigen::Index;
using RealScalar = double;
enum RegularizationType { REGULARIZATION_NONE, REGULARIZATION_TIKHONOV };
enum ObjectiveType { SIMPLE_BOUNDS_OBJECTIVE, GENERAL_OBJECTIVE };
enum ConstraintActivationType { CTR_INACTIVE, CTR_ACTIVE_LB, CTR_ACTIVE_UB, CTR_ACTIVE_EQ };
enum class TerminationStatus { PROBLEM_SOLVED, PROBLEM_SOLVED_CYCLING_HANDLING, MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED };
struct ConstraintIdentifier { Index obj_index; Index ctr_index; ConstraintActivationType ctr_type; };
struct ParametersLexLSI
{
  Index max_number_of_factorizations, max_number_of_CG_iterations, cycling_max_counter;
  RealScalar tol_linear_dependence, tol_wrong_sign_lambda, tol_correct_sign_lambda, tol_feasibility;
  RealScalar variable_regularization_factor, cycling_relax_step;
  RegularizationType regularization_type;
  bool cycling_handling_enabled, modify_x_guess_enabled, modify_type_active_enabled, modify_type_inactive_enabled;
  bool set_min_init_ctr_violation, use_phase1_v0, log_working_set_enabled, deactivate_first_wrong_sign;
  std::string output_file_name;
};
namespace internal
{
class LexLSI
{
public:
  void setParameters(const ParametersLexLSI &) {}
  void resize(Index n, Index nObj, Index * dims, ObjectiveType * types)
  {
    n_ = n;
    dims_.assign(dims, dims + nObj);
    types_.assign(types, types + nObj);
    levels_.assign(nObj, {});
    x_ = Eigen::VectorXd::Zero(n);
  }
  void reset() { levels_.assign(dims_.size(), {}); }
  void setData(Index i, Index *, const Eigen::MatrixXd & d)
  {
    auto & l = levels_.at(i);
    l.A = Eigen::MatrixXd::Identity(n_, n_);
    if(types_.at(i) != SIMPLE_BOUNDS_OBJECTIVE || d.rows() != dims_[i] || d.cols() != 2) { bad_ = true; return; }
    l.l = d.col(0);
    l.u = d.col(1);
  }
  void setData(Index i, const Eigen::MatrixXd & d)
  {
    auto & l = levels_.at(i);
    if(types_.at(i) != GENERAL_OBJECTIVE || d.rows() != dims_[i] || d.cols() != n_ + 2) { bad_ = true; return; }
    l.A = d.leftCols(n_);
    l.l = d.col(n_);
    l.u = d.col(n_ + 1);
  }
  void activate(Index, Index, ConstraintActivationType, bool = true) {}
  void set_x0(const Eigen::VectorXd &) {}
  TerminationStatus solve()
  {
    auto & p = vpbackend::last();
    int calls = p.calls;
    p = vpbackend::Problem();
    p.calls = calls + 1;
    p.solver = bad_ ? "bad" : "lexls";
    p.dims[0] = (int)n_;
    p.levels = levels_;
    if(!types_.empty() && types_[0] == SIMPLE_BOUNDS_OBJECTIVE)
    {
      p.hasBounds = true;
      p.xl = levels_[0].l;
      p.xu = levels_[0].u;
      p.levels.erase(p.levels.begin());
    }
    return TerminationStatus::PROBLEM_SOLVED;
  }
  void getActiveCtr(Index, std::vector<ConstraintActivationType> &) const {}
  void getActiveCtr_order(std::vector<ConstraintIdentifier> &) const {}
  const Eigen::VectorXd & get_x() const { return x_; }
  void print(const char *) const {}

private:
  Index n_ = 0;
  bool bad_ = false;
  std::vector<Index> dims_;
  std::vector<ObjectiveType> types_;
  std::vector<vpbackend::Level> levels_;
  Eigen::VectorXd x_;
};
} // namespace internal
} // namespace LexLS
