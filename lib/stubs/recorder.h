// Stand-ins for external QP solver libraries that are not installed here. They follow the documented calling
// convention of the real library, record what they were given and answer with a scripted or an exact solution.
#pragma once
#include <Eigen/Dense>
#include <vector>
#include <functional>
namespace fakeqp
{
using Eigen::MatrixXd; using Eigen::VectorXd;
/// min 0.5 x'Hx + g'x,  lb <= x <= ub,  Alb <= A x <= Aub
struct QP { MatrixXd H; VectorXd g, lb, ub; MatrixXd A; VectorXd Alb, Aub; };
struct Answer { int status; VectorXd x; std::vector<double> wsb, wsc; int iterations; };
struct Call
{
    QP qp; const char *lib; bool has_guess; VectorXd guess; bool has_as; std::vector<int> as_bounds, as_constraints; int max_iter; double cpu_time; bool has_cpu_time; double opt_a, opt_b; int opt_c; bool has_options;
};
struct Script { std::function<Answer(const Call&)> answer; std::vector<Call> calls; };
inline Script& script(){ static Script s; return s; }
}
