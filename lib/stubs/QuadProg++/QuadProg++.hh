#pragma once
#include "../recorder.h"
namespace QuadProgpp
{
class Status { public: enum Value { OK = 0, FAILURE = 1, LINEARLY_DEPENDENT = 2 }; };
class Solver
{
  public:
    /// CE' x + ce0 = 0,  CI' x + ci0 >= 0
    Status::Value solve(Eigen::MatrixXd &H, const Eigen::VectorXd &g, const Eigen::MatrixXd &CE, const Eigen::VectorXd &ce0, const Eigen::MatrixXd &CI, const Eigen::VectorXd &ci0, Eigen::VectorXd &x)
    {
        fakeqp::Call c = fakeqp::Call(); c.lib = "quadprog"; c.qp.H = H; c.qp.g = g; int p = CE.cols(), m = CI.cols(), n = g.size();
        if(ce0.size() != p || ci0.size() != m || (p && CE.rows() != n) || (m && CI.rows() != n)) throw std::logic_error("QuadProg++ stand-in: inconsistent sizes");
        c.qp.A.resize(p+m,n); c.qp.Alb.resize(p+m); c.qp.Aub.resize(p+m);
        for(int i=0;i<p;++i){ c.qp.A.row(i)=CE.col(i).transpose(); c.qp.Alb[i]=c.qp.Aub[i]=-ce0[i]; }
        for(int i=0;i<m;++i){ c.qp.A.row(p+i)=CI.col(i).transpose(); c.qp.Alb[p+i]=-ci0[i]; c.qp.Aub[p+i]=1e20; }
        fakeqp::Answer a = fakeqp::script().answer(c); fakeqp::script().calls.push_back(c);
        H.setConstant(-777.25); if(a.x.size()) x = a.x; return (Status::Value)a.status;
    }
};
}
