#pragma once
#include "../recorder.h"
namespace qpmad
{
class SolverParameters
{
  public:
    enum HessianType { UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2 };
    HessianType hessian_type_; double tolerance_; int max_iter_;
    SolverParameters() { hessian_type_ = HESSIAN_LOWER_TRIANGULAR; tolerance_ = 1e-12; max_iter_ = -1; }
};
class Solver
{
  public:
    enum ReturnStatus { OK = 0, INCONSISTENT = 1, INFEASIBLE_EQUALITY = 2, INFEASIBLE_INEQUALITY = 3, MAXIMAL_NUMBER_OF_ITERATIONS = 4 };
    template<class P,class MH,class Vg,class Vl,class Vu,class MA,class Val,class Vau>
    ReturnStatus solve(P &primal, MH &H, const Eigen::MatrixBase<Vg> &h, const Eigen::MatrixBase<Vl> &lb, const Eigen::MatrixBase<Vu> &ub, const Eigen::MatrixBase<MA> &A, const Eigen::MatrixBase<Val> &Alb, const Eigen::MatrixBase<Vau> &Aub, const SolverParameters &param)
    {
        fakeqp::Call c = fakeqp::Call(); c.lib = "qpmad"; c.qp.g = h; c.qp.lb = lb; c.qp.ub = ub; c.qp.A = A; c.qp.Alb = Alb; c.qp.Aub = Aub;
        // only the lower triangle is read
        c.qp.H = Eigen::MatrixXd(H.template selfadjointView<Eigen::Lower>()); c.has_options = true; c.opt_a = param.tolerance_; c.opt_c = param.max_iter_; c.opt_b = param.hessian_type_;
        fakeqp::Answer a = fakeqp::script().answer(c); fakeqp::script().calls.push_back(c);
        H.setConstant(-777.25); // the matrix is factorised in place
        if(a.x.size()) primal = a.x; return (ReturnStatus)a.status;
    }
    template<class P,class MH,class Vg,class Vl,class Vu,class MA,class Val,class Vau>
    ReturnStatus solve(P &primal, MH &H, const Eigen::MatrixBase<Vg> &h, const Eigen::MatrixBase<Vl> &lb, const Eigen::MatrixBase<Vu> &ub, const Eigen::MatrixBase<MA> &A, const Eigen::MatrixBase<Val> &Alb, const Eigen::MatrixBase<Vau> &Aub)
    { return solve(primal,H,h,lb,ub,A,Alb,Aub,SolverParameters()); }
};
}
