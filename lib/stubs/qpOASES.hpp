#pragma once
#include "recorder.h"
#include <string>
#include <cstring>
namespace qpOASES
{
typedef double real_t; typedef int int_t;
enum BooleanType { BT_FALSE, BT_TRUE };
enum SubjectToStatus { ST_LOWER = -1, ST_INACTIVE, ST_UPPER, ST_INFEASIBLE_LOWER, ST_INFEASIBLE_UPPER, ST_UNDEFINED };
enum HessianType { HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF, HST_INDEF, HST_UNKNOWN };
enum returnValue { TERMINAL_LIST_ELEMENT = -1, SUCCESSFUL_RETURN = 0, RET_DIV_BY_ZERO = 1, RET_INIT_FAILED = 33, RET_INIT_FAILED_INFEASIBILITY = 37, RET_MAX_NWSR_REACHED = 64 };
class MessageHandling { public: static const char* getErrorCodeMessage(const returnValue) { return "stand-in"; } };
class Options
{
  public:
    BooleanType enableRamping, enableFarBounds, enableFlippingBounds, enableRegularisation, enableFullLITests, enableNZCTests; int_t enableDriftCorrection, enableCholeskyRefactorisation; BooleanType enableEqualities;
    real_t terminationTolerance, boundTolerance, boundRelaxation, epsNum, epsDen, maxPrimalJump, maxDualJump, initialRamping, finalRamping, initialFarBounds, growFarBounds; SubjectToStatus initialStatusBounds; real_t epsFlipping; int_t numRegularisationSteps; real_t epsRegularisation; int_t numRefinementSteps; real_t epsIterRef, epsLITests, epsNZCTests, rcondSMin; BooleanType enableInertiaCorrection, enableDropInfeasibles; int_t dropBoundPriority, dropEqConPriority, dropIneqConPriority;
    Options() { setToDefault(); }
    void setToDefault() { set(BT_TRUE,0); }
    void setToMPC() { set(BT_FALSE,1); }
  private:
    void set(BooleanType r,int k)
    {
        enableRamping=r; enableFarBounds=BT_FALSE; enableFlippingBounds=BT_FALSE; enableRegularisation=BT_TRUE; enableFullLITests=BT_FALSE; enableNZCTests=BT_FALSE; enableDriftCorrection=k; enableCholeskyRefactorisation=0; enableEqualities=BT_FALSE;
        terminationTolerance=1e-9; boundTolerance=1e-6; boundRelaxation=1e4; epsNum=-1e-13; epsDen=1e-13; maxPrimalJump=1e8; maxDualJump=1e8; initialRamping=0.5; finalRamping=1; initialFarBounds=1e6; growFarBounds=1e3; initialStatusBounds=ST_INACTIVE; epsFlipping=1e-13; numRegularisationSteps=1; epsRegularisation=1e-13; numRefinementSteps=0; epsIterRef=1e-14; epsLITests=1e-11; epsNZCTests=3e-13; rcondSMin=1e-14; enableInertiaCorrection=BT_TRUE; enableDropInfeasibles=BT_FALSE; dropBoundPriority=1; dropEqConPriority=1; dropIneqConPriority=1;
    }
};
class SubjectTo_
{
  protected: std::vector<int> st_;
    void setup(int i,SubjectToStatus s){ if(i<0||i>=(int)st_.size()) throw std::logic_error("qpOASES stand-in: index out of bounds"); st_[i]=s; }
  public:
    returnValue init(int_t n=0){ st_.assign(n,ST_UNDEFINED); return SUCCESSFUL_RETURN; }
    const std::vector<int>& statuses() const { return st_; }
};
class Bounds : public SubjectTo_ { public: returnValue setupBound(int_t i,SubjectToStatus s){ setup(i,s); return SUCCESSFUL_RETURN; } returnValue setupAllFree(){ st_.assign(st_.size(),ST_INACTIVE); return SUCCESSFUL_RETURN; } };
class Constraints : public SubjectTo_ { public: returnValue setupConstraint(int_t i,SubjectToStatus s){ setup(i,s); return SUCCESSFUL_RETURN; } returnValue setupAllInactive(){ st_.assign(st_.size(),ST_INACTIVE); return SUCCESSFUL_RETURN; } };
class QProblem
{
    int nv_, nc_; Options o_; fakeqp::Answer a_; bool done_;
  public:
    QProblem(int_t nV,int_t nC,HessianType=HST_UNKNOWN) : nv_(nV), nc_(nC), done_(false) {}
    returnValue setOptions(const Options&o){ o_=o; return SUCCESSFUL_RETURN; }
    returnValue init(const real_t*H,const real_t*g,const real_t*A,const real_t*lb,const real_t*ub,const real_t*lbA,const real_t*ubA,int_t&nWSR,real_t*cputime=0,const real_t*xOpt=0,const real_t*yOpt=0,const Bounds*gb=0,const Constraints*gc=0)
    {
        fakeqp::Call c = fakeqp::Call(); c.lib="qpOASES"; typedef Eigen::Matrix<double,-1,-1,Eigen::RowMajor> RM;
        c.qp.H=Eigen::Map<const RM>(H,nv_,nv_); c.qp.g=Eigen::Map<const Eigen::VectorXd>(g,nv_);
        if(lb) c.qp.lb=Eigen::Map<const Eigen::VectorXd>(lb,nv_); if(ub) c.qp.ub=Eigen::Map<const Eigen::VectorXd>(ub,nv_);
        if(nc_>0){ if(!A) throw std::logic_error("qpOASES stand-in: no constraint matrix"); c.qp.A=Eigen::Map<const RM>(A,nc_,nv_); c.qp.Alb=Eigen::VectorXd::Constant(nc_,-1e20); c.qp.Aub=Eigen::VectorXd::Constant(nc_,1e20); if(lbA) c.qp.Alb=Eigen::Map<const Eigen::VectorXd>(lbA,nc_); if(ubA) c.qp.Aub=Eigen::Map<const Eigen::VectorXd>(ubA,nc_); } else c.qp.A.resize(0,nv_);
        c.max_iter=nWSR; c.has_cpu_time=cputime!=0; if(cputime) c.cpu_time=*cputime; c.has_guess=xOpt!=0; if(xOpt) c.guess=Eigen::Map<const Eigen::VectorXd>(xOpt,nv_);
        c.has_as=gb||gc; if(gb) c.as_bounds=gb->statuses(); if(gc) c.as_constraints=gc->statuses(); c.has_options=true; c.opt_a=o_.terminationTolerance; c.opt_b=o_.boundTolerance; c.opt_c=o_.enableDriftCorrection*100+o_.enableRamping*10+o_.numRefinementSteps;
        a_=fakeqp::script().answer(c); fakeqp::script().calls.push_back(c); nWSR=a_.iterations; done_=true; return (returnValue)a_.status;
    }
    returnValue getPrimalSolution(real_t*x) const { if(!done_) return RET_INIT_FAILED; if(a_.x.size()) std::memcpy(x,a_.x.data(),sizeof(double)*nv_); return SUCCESSFUL_RETURN; }
    returnValue getWorkingSetBounds(real_t*w){ for(int i=0;i<nv_;++i) w[i]=a_.wsb[i]; return SUCCESSFUL_RETURN; }
    returnValue getWorkingSetConstraints(real_t*w){ for(int i=0;i<nc_;++i) w[i]=a_.wsc[i]; return SUCCESSFUL_RETURN; }
};
}
