// PBT-rule: a two-level hierarchy whose constraints exclude the unconstrained minimiser, or a history of at least two hierarchies
// PBT-assume: condition number of the KKT matrix below 1e6 (checked, others discarded); solutions compared with relative tolerance 1e-6
#include "core_gen.h"
#include "humoto/kktsolver.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg; using humoto::kktsolver::SolverParameters;
struct Prob { int n; std::vector<Ref> ctr,obj; humoto::OptimizationProblem op; Model m; Problem pr; humoto::Solution s; bool diag; MatrixXd A,H; VectorXd b,gr; };
static VectorXd rhs(const Ref&r){ VectorXd b(r.m); for(int i=0;i<r.m;++i) b[i]=r.lo(i); return b; }
static bool build(pbt::Case&g,Prob&p)
{
    p.n=g.size(1,6,14); bool two=g.chance(3,4); p.op.reset(two?2:1); int nc=0;
    if(two){ int k=g.range(1,3); for(int i=0;i<k;++i){ int room=p.n-nc; if(i>0&&room<=0) break; Ref r=genRef(g,p.n,false,i==0?1:0,std::max(1,std::min(3,room)),-1,g.range(B,B0)); p.ctr.push_back(r); nc+=r.m; p.op.pushTask(makeTask(r,"c"),0); g.note("c",r.name()); } }
    p.diag=g.flip(); int k=g.range(1,3); for(int i=0;i<k;++i){ Ref r; if(i==0&&g.chance(3,4)){ r=genRef(g,p.n,false,p.n,p.n,p.diag?g.range(I,GI):g.range(I,A),g.range(B,B0)); if(r.simple()){ for(int j=0;j<p.n;++j) r.idx[j]=j; r.dense.setZero(); for(int j=0;j<p.n;++j){ if(r.body==GI&&std::fabs(r.gains[j])<0.2) r.gains[j]=1; r.dense(j,j)=r.body==I?1:r.gains[j]; } } } else r=genRef(g,p.n,false,1,p.n+1,p.diag?g.range(I,GI):-1,g.range(B,B0));
        p.obj.push_back(r); p.op.pushTask(makeTask(r,"o"),two?1:0); g.note("o",r.name()); }
    p.A=MatrixXd::Zero(nc,p.n); p.b=VectorXd::Zero(nc); int o=0; for(auto&r:p.ctr){ p.A.middleRows(o,r.m)=r.dense; p.b.segment(o,r.m)=rhs(r); o+=r.m; }
    p.H=MatrixXd::Zero(p.n,p.n); p.gr=VectorXd::Zero(p.n); bool simple=true; for(auto&r:p.obj){ p.H+=r.dense.transpose()*r.dense; p.gr-=r.dense.transpose()*rhs(r); if(!r.simple()) simple=false; } p.diag=simple;
    p.pr.setVars(p.n); p.op.form(p.s,p.m,p.pr);
    MatrixXd K=MatrixXd::Zero(p.n+nc,p.n+nc); K.topLeftCorner(p.n,p.n)=p.H; K.topRightCorner(p.n,nc)=p.A.transpose(); K.bottomLeftCorner(nc,p.n)=p.A;
    Eigen::JacobiSVD<MatrixXd> svd(K); double cn=svd.singularValues()(0)/svd.singularValues()(K.rows()-1); return std::isfinite(cn)&&cn<1e6;
}
// null-space method, independent of the KKT matrix
static VectorXd reference(const Prob&p)
{
    if(p.A.rows()==0) return p.H.ldlt().solve(-p.gr);
    Eigen::JacobiSVD<MatrixXd> svd(p.A,Eigen::ComputeFullU|Eigen::ComputeFullV); VectorXd x0=svd.solve(p.b); int m=p.A.rows(); MatrixXd Z=svd.matrixV().rightCols(p.n-m);
    if(Z.cols()==0) return x0; VectorXd y=(Z.transpose()*p.H*Z).ldlt().solve(-Z.transpose()*(p.gr+p.H*x0)); return x0+Z*y;
}
static bool elimOK(const Prob&p){ if(!p.diag) return false; for(int i=0;i<p.n;++i) if(p.H(i,i)<1e-2) return false; return true; }
static void solveAndCheck(pbt::Case&g,humoto::kktsolver::Solver&sv,SolverParameters::Method me,Prob&p,const char*w)
{
    p.s.x_.setConstant(123); p.s.return_status_=humoto::SolverStatus::UNDEFINED; SolverParameters par; par.solution_method_=me; sv.setParameters(par); sv.solve(p.s,p.op);
    PBT_CHECK(p.s.return_status_==humoto::SolverStatus::OK,"status"); VectorXd x=reference(p); pbt::checkMat(p.s.x_,x,std::string(w)+" method "+std::to_string(me),me==SolverParameters::CONSTRAINT_ELIMINATION_LLT?1e-5:1e-6);
    if(p.A.rows()) { VectorXd e=p.A*p.s.x_-p.b; PBT_CHECK(e.cwiseAbs().maxCoeff()<=1e-5*(1+x.cwiseAbs().maxCoeff()),"constraints not satisfied"); }
    g.tag("method "+std::to_string(me)+(p.A.rows()?" constrained":" unconstrained"));
}
PBT_PROP(single,60000,1200000)
{
    Prob p; if(!build(g,p)) g.discard(); g.nontrivial(p.A.rows()>0&&p.A.rows()<p.n);
    { humoto::kktsolver::Solver s; solveAndCheck(g,s,SolverParameters::LU,p,"fresh"); } { humoto::kktsolver::Solver s; solveAndCheck(g,s,SolverParameters::QR,p,"fresh"); }
    humoto::kktsolver::Solver s; if(elimOK(p)) solveAndCheck(g,s,SolverParameters::CONSTRAINT_ELIMINATION_LLT,p,"fresh"); else if(!p.diag){ SolverParameters par; par.solution_method_=SolverParameters::CONSTRAINT_ELIMINATION_LLT; s.setParameters(par); PBT_CHECK(pbt::throwsCleanly([&]{ s.solve(p.s,p.op); }),"elimination accepted with a non-diagonal objective"); }
}
PBT_PROP(history,30000,600000)
{
    humoto::kktsolver::Solver s; int k=g.range(2,4),done=0;
    for(int i=0;i<k;++i){ Prob p; if(!build(g,p)) continue; int me=g.range(1,3); if(me==3&&!elimOK(p)) me=1; solveAndCheck(g,s,(SolverParameters::Method)me,p,"reused solver"); ++done; }
    g.nontrivial(done>1); if(!done) g.discard();
}
PBT_PROP(solve_overload_with_parameters,10000,100000)
{
    Prob p; if(!build(g,p)) g.discard(); g.nontrivial(); humoto::kktsolver::Solver s; SolverParameters par; par.solution_method_=g.flip()?SolverParameters::LU:SolverParameters::QR; if(g.flip()) s.solve(p.s,p.op,par); else { humoto::kktsolver::Solver c(par); c.solve(p.s,p.op); } pbt::checkMat(p.s.x_,reference(p),"solve with parameters",1e-6);
}
PBT_PROP(rejection,20000,200000)
{   // inequalities on any level, more than two levels, undefined method
    int n=g.range(1,4); humoto::OptimizationProblem op; int k=g.range(0,3); int L=k==2?g.range(3,4):(k==1?1:2); op.reset(L); g.nontrivial(); g.note("kind",k);
    for(int l=0;l<L;++l){ int bn=g.range(B,B0); if(k==0&&l==0) bn=g.range(LU,U); if(k==1&&l==0) bn=g.range(LU,U); op.pushTask(makeTask(genRef(g,n,true,1,2,-1,bn),"t"),l); if(g.flip()) op.pushTask(makeTask(genRef(g,n,true,1,2,-1,g.range(B,B0)),"u"),l); }
    Model m; Problem pr; pr.setVars(n); humoto::Solution s; op.form(s,m,pr); humoto::kktsolver::Solver sv; SolverParameters par; if(k==3) par.solution_method_=SolverParameters::UNDEFINED; bool direct=g.flip(); if(!direct) sv.setParameters(par);
    PBT_CHECK(pbt::throwsCleanly([&]{ if(direct) sv.solve(s,op,par); else sv.solve(s,op); }),"unsupported hierarchy accepted, kind "<<k);
}
PBT_MAIN
