// PBT-rule: a two-level hierarchy with at least one inequality, a returned working set with an active member, or a history of at least two solves
// PBT-assume: the external solver libraries are stand-ins that follow their documented calling conventions; feasibility is compared away from the boundary (1e-7)
// PBT-flags: -I{V}/lib/stubs
#include "core_gen.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg; using fakeqp::Call; using fakeqp::QP; using fakeqp::Answer;
enum Lib { OASES=0, MAD=1, PROG=2 };
static const char* libName(int l){ static const char*n[]={"qpOASES","qpmad","quadprog"}; return n[l]; }
struct Prob { int n; bool two; std::vector<Ref> ctr,obj; humoto::OptimizationProblem op; Model m; Problem pr; VectorXd x0; std::vector<Ref> gen,simp; };
// constraints that all contain x0
static Ref around(pbt::Case&g,int n,const VectorXd&x0,int minm,int maxm,bool gi)
{
    int bo=g.range(I,gi?AS:A); if(!gi&&bo>=GI) ++bo; Ref r=genRef(g,n,false,bo==GI?1:minm,maxm,bo,-1,true);
    if(r.body==GI) for(int i=0;i<r.m;++i){ if(std::fabs(r.gains[i])<0.1) r.gains[i]=g.flip()?1.5:-2; r.dense(i,r.idx[i])=r.gains[i]; }
    if(r.bnd==B0)
    {
        if(r.simple()){ for(int i=0;i<r.m;++i) if(x0[r.idx[i]]!=0){ r.bnd=B; break; } }
        else { int c=r.Araw.cols(); VectorXd s=x0.segment(r.offset,c); double q=s.squaredNorm(); if(q>0){ r.Araw-=(r.Araw*s)*s.transpose()/q; r.dense.block(0,r.offset,r.m,c)=r.Araw; } }
    }
    VectorXd v=r.dense*x0; for(int i=0;i<r.m;++i){ double a=g.chance(1,4)?0:g.real(0,3),b=g.chance(1,4)?0:g.real(0,3); r.lb[i]=v[i]-a; r.ub[i]=v[i]+b; r.b[i]=v[i]; }
    return r;
}
static void build(pbt::Case&g,Prob&p,int nmax=5,int mmax=3,int kmax=3,bool gi=false)
{
    p.n=g.range(1,nmax); p.two=g.chance(5,6); p.op.reset(p.two?2:1); p.x0.resize(p.n); for(int i=0;i<p.n;++i) p.x0[i]=g.chance(1,4)?0:g.real(-2,2);
    if(p.two){ int k=g.range(1,kmax); for(int i=0;i<k;++i){ Ref r=around(g,p.n,p.x0,i==0?1:0,mmax,gi); p.ctr.push_back(r); p.op.pushTask(makeTask(r,"c"+std::to_string(i)),0); g.note("c",r.name()); } }
    Ref r=genRef(g,p.n,false,p.n,p.n,g.range(I,A),g.range(B,B0)); if(r.simple()){ r.dense.setZero(); for(int j=0;j<p.n;++j){ r.idx[j]=j; if(r.body==GI&&std::fabs(r.gains[j])<0.3) r.gains[j]=1; r.dense(j,j)=r.body==I?1:r.gains[j]; } } else { r.Araw+=12*MatrixXd::Identity(p.n,p.n); r.dense=r.Araw; }
    p.obj.push_back(r); if(g.flip()) p.obj.push_back(genRef(g,p.n,false,1,3,-1,g.range(B,B0))); for(size_t i=0;i<p.obj.size();++i){ p.op.pushTask(makeTask(p.obj[i],"o"+std::to_string(i)),p.two?1:0); g.note("o",p.obj[i].name()); }
    p.pr.setVars(p.n); for(auto&c:p.ctr) (c.simple()?p.simp:p.gen).push_back(c);
}
static bool ineq(const Prob&p){ for(auto&r:p.ctr) if(!r.eq()&&r.m) return true; return false; }
static double cost(const Prob&p,const VectorXd&x){ double c=0; for(auto&r:p.obj) for(int i=0;i<r.m;++i){ double e=r.dense.row(i).dot(x)-r.lo(i); c+=0.5*e*e; } return c; }
static double margin(const Prob&p,const VectorXd&x){ double m=1e30; for(auto&r:p.ctr) for(int i=0;i<r.m;++i){ double v=r.dense.row(i).dot(x); if(r.eq()) m=std::min(m,-std::fabs(v-r.lo(i))); else m=std::min(m,std::min(v-r.lo(i),r.hi(i)-v)); } return m; }
static double margin(const QP&q,const VectorXd&x){ double m=1e30; for(int i=0;i<q.lb.size();++i) m=std::min(m,x[i]-q.lb[i]); for(int i=0;i<q.ub.size();++i) m=std::min(m,q.ub[i]-x[i]); for(int i=0;i<q.A.rows();++i){ double v=q.A.row(i).dot(x); m=std::min(m,std::min(v-q.Alb[i],q.Aub[i]-v)); } return m; }
// the QP that reached the library describes the hierarchy
static void checkQP(pbt::Case&g,const Prob&p,const QP&q,double reg,const std::string&w)
{
    int n=p.n; PBT_CHECK(q.H.rows()==n&&q.H.cols()==n&&q.g.size()==n,w<<": objective sizes"); PBT_CHECK((q.lb.size()==0||q.lb.size()==n)&&(q.ub.size()==0||q.ub.size()==n),w<<": bound sizes"); PBT_CHECK(q.A.rows()==0||q.A.cols()==n,w<<": constraint matrix "<<q.A.rows()<<"x"<<q.A.cols()); PBT_CHECK(q.Alb.size()==q.A.rows()&&q.Aub.size()==q.A.rows(),w<<": constraint bounds");
    auto F=[&](const VectorXd&x){ return 0.5*x.dot(q.H*x)+q.g.dot(x); }; MatrixXd E; { int k=0; for(auto&r:p.ctr) if(r.eq()) k+=r.m; E.resize(k,n); k=0; for(auto&r:p.ctr) if(r.eq()){ E.middleRows(k,r.m)=r.dense; k+=r.m; } }
    MatrixXd Z=MatrixXd::Identity(n,n); if(E.rows()){ Eigen::FullPivLU<MatrixXd> lu(E); lu.setThreshold(1e-9); Z=lu.kernel(); }
    double f0=F(VectorXd::Zero(n)),c0=cost(p,VectorXd::Zero(n));
    for(int k=0;k<6;++k)
    {
        VectorXd x=p.x0; if(k==1||k==2) x+=Z*genVec(g,Z.cols(),false)*0.3; else if(k==3){ VectorXd d=VectorXd::Zero(n); d[g.range(0,n-1)]=g.real(-3,3); x+=d; } else if(k>3) x=genVec(g,n,false);
        double a=F(x)-f0,b=cost(p,x)-c0+0.5*reg*x.squaredNorm(); PBT_CHECK(std::fabs(a-b)<=1e-9*(1+std::fabs(c0)+cost(p,x)+reg*x.squaredNorm()),w<<": objective differs"); 
        double ma=margin(q,x),mb=margin(p,x); bool sa=ma>-1e-8,sb=mb>-1e-8; if((std::fabs(ma)<1e-6||std::fabs(mb)<1e-6)&&!(std::fabs(ma)<1e-9&&std::fabs(mb)<1e-9)) { if(!(std::fabs(ma)<1e-9||std::fabs(mb)<1e-9)) continue; }
        PBT_CHECK(sa==sb,w<<": point is "<<(sb?"":"not ")<<"admissible (margin "<<mb<<") but the library was told the opposite (margin "<<ma<<")");
    }
}
// exact minimiser by enumeration of working sets
static bool brute(const QP&q,VectorXd&best)
{
    int n=q.g.size(); struct Row{ VectorXd a; double lo,hi; }; std::vector<Row> R; for(int i=0;i<q.A.rows();++i) R.push_back({q.A.row(i).transpose(),q.Alb[i],q.Aub[i]}); for(int i=0;i<std::max(q.lb.size(),q.ub.size());++i){ double lo=q.lb.size()?q.lb[i]:-INF,hi=q.ub.size()?q.ub[i]:INF; if(lo<=-INF/2&&hi>=INF/2) continue; R.push_back({VectorXd::Unit(n,i),lo,hi}); }
    int k=R.size(); bool found=false; double bc=0; std::vector<int> s(k,0);
    std::function<void(int,int)> rec=[&](int i,int used){
        if(i<k){ s[i]=0; rec(i+1,used); if(used<n){ if(R[i].lo>-INF/2){ s[i]=-1; rec(i+1,used+1); } if(R[i].hi<INF/2&&R[i].hi!=R[i].lo){ s[i]=1; rec(i+1,used+1); } s[i]=0; } return; }
        MatrixXd K=MatrixXd::Zero(n+used,n+used); VectorXd r(n+used); K.topLeftCorner(n,n)=q.H; r.head(n)=-q.g; int c=n; for(int j=0;j<k;++j) if(s[j]){ K.block(0,c,n,1)=R[j].a; K.block(c,0,1,n)=R[j].a.transpose(); r[c]=s[j]<0?R[j].lo:R[j].hi; ++c; }
        VectorXd z=K.fullPivLu().solve(r); if(!((K*z-r).cwiseAbs().maxCoeff()<1e-7)) return; VectorXd x=z.head(n); for(auto&w:R){ double v=w.a.dot(x); if(v<w.lo-1e-7||v>w.hi+1e-7) return; }
        double f=0.5*x.dot(q.H*x)+q.g.dot(x); if(!found||f<bc){ found=true; bc=f; best=x; } };
    rec(0,0); return found;
}
static QP refQP(const Prob&p)
{
    QP q; int n=p.n,k=0; q.H=MatrixXd::Zero(n,n); q.g=VectorXd::Zero(n); for(auto&r:p.obj) for(int i=0;i<r.m;++i){ VectorXd a=r.dense.row(i).transpose(); q.H+=a*a.transpose(); q.g-=a*r.lo(i); } for(auto&r:p.ctr) k+=r.m; q.A.resize(k,n); q.Alb.resize(k); q.Aub.resize(k); k=0; for(auto&r:p.ctr) for(int i=0;i<r.m;++i,++k){ q.A.row(k)=r.dense.row(i); q.Alb[k]=r.lo(i); q.Aub[k]=r.hi(i); } return q;
}
static Answer okAnswer(pbt::Case&g,const Call&c)
{
    Answer a; a.status=0; int n=c.qp.g.size(); a.x=genVec(g,n,true); a.wsb.resize(n); a.wsc.resize(c.qp.A.rows()); for(auto&v:a.wsb) v=g.range(-1,1); for(auto&v:a.wsc) v=g.range(-1,1); a.iterations=g.range(0,50); return a;
}
static void script(std::function<Answer(const Call&)> f){ fakeqp::script().answer=f; fakeqp::script().calls.clear(); }
static const Call& last(){ if(fakeqp::script().calls.empty()) throw pbt::Failure("the solver library was not called"); return fakeqp::script().calls.back(); }
struct All { humoto::qpoases::Solver o; humoto::qpmad::Solver m; humoto::quadprogpp::Solver q; };
// every way to call qpOASES; the guesses come from the hierarchy itself
static void oases(humoto::qpoases::Solver&v,const humoto::qpoases::SolverParameters&par,humoto::Solution&s,const humoto::OptimizationProblem&op,int how)
{
    humoto::ActiveSet as,ag; humoto::Solution gs; if(how>1){ op.initializeActiveSet(ag); for(size_t l=0;l<ag.size();++l) for(int i=0;i<ag[l].size();++i) ag[l][i]=humoto::ConstraintActivationType::INACTIVE; gs.initialize(s); gs.x_.setZero(s.getNumberOfVariables()); }
    switch(how){ case 0: v.setParameters(par); v.solve(s,op); break; case 1: v.solve(s,op,par); break; case 2: v.setParameters(par); v.solve(s,op,gs); break; case 3: v.setParameters(par); v.solve(s,as,op,ag); break; case 4: v.setParameters(par); v.solve(s,op,ag); break; case 5: v.setParameters(par); v.solve(s,as,op); break; case 6: v.setParameters(par); v.solve(s,as,op,gs,ag); break; case 7: v.setParameters(par); v.solve(s,op,gs,ag); break; default: v.setParameters(par); v.solve(s,as,op,gs); break; }
}
static void run(All&s,int lib,humoto::Solution&sol,const humoto::OptimizationProblem&op){ if(lib==OASES) s.o.solve(sol,op); else if(lib==MAD) s.m.solve(sol,op); else s.q.solve(sol,op); }

PBT_PROP(problem_reaches_the_solver,40000,800000)
{   // several problems in a row through the same solver objects
    All s; int k=g.range(1,3); bool ie=false;
    for(int i=0;i<k;++i)
    {
        bool gi=g.chance(1,3); Prob p; build(g,p,5,3,3,gi); ie=ie||ineq(p); humoto::Solution sol; p.op.form(sol,p.m,p.pr); bool hasgi=false; for(auto&r:p.ctr) if(r.body==GI&&r.m) hasgi=true;
        for(int lib=0;lib<3;++lib)
        {
            if(g.chance(1,4)) continue; double reg=lib!=OASES&&g.chance(1,3)?g.real(0.01,2):0; if(lib==MAD){ humoto::qpmad::SolverParameters par; par.regularization_factor_=reg; s.m.setParameters(par); } if(lib==PROG){ humoto::quadprogpp::SolverParameters par; par.regularization_factor_=reg; s.q.setParameters(par); }
            VectorXd x; script([&](const Call&c){ Answer a=okAnswer(g,c); x=a.x; return a; }); sol.x_.setConstant(5555);
            if(hasgi&&lib!=PROG){ PBT_CHECK(pbt::throwsCleanly([&]{ run(s,lib,sol,p.op); }),"weighted bounds are not supported by this solver but were accepted"); continue; } // C01: no such form
            run(s,lib,sol,p.op);
            PBT_CHECK(fakeqp::script().calls.size()==1,"library called "<<fakeqp::script().calls.size()<<" times"); checkQP(g,p,last().qp,reg,std::string(libName(lib))+(i?" reused":"")); pbt::checkMat(sol.x_,x,"solution of the library",0); PBT_CHECK(sol.return_status_==humoto::SolverStatus::OK,"status"); g.tag(std::string(libName(lib))+(p.two?" two levels":" one level"));
        }
    }
    g.nontrivial(ie||k>1);
}
PBT_PROP(optimum,4000,60000)
{
    int lib=g.range(0,2); Prob p; build(g,p,3,2,2,lib==PROG); humoto::Solution sol; p.op.form(sol,p.m,p.pr); g.nontrivial(ineq(p)); QP rq=refQP(p); VectorXd x; if(!brute(rq,x)) g.discard();
    script([&](const Call&c){ Answer a; a.iterations=3; a.status=0; a.wsb.assign(c.qp.g.size(),0); a.wsc.assign(c.qp.A.rows(),0); if(!brute(c.qp,a.x)){ a.status=2; } return a; });
    All s; run(s,lib,sol,p.op); double c1=cost(p,sol.x_),c0=cost(p,x); PBT_CHECK(margin(p,sol.x_)>-1e-5,libName(lib)<<": returned point violates the first level by "<<-margin(p,sol.x_)); PBT_CHECK(c1<=c0+1e-6*(1+c0),libName(lib)<<": cost "<<c1<<" at the returned point, minimum "<<c0); pbt::checkMat(sol.x_,x,"minimiser",1e-4); g.tag(libName(lib));
}
PBT_PROP(status_is_reported,20000,200000)
{
    Prob p; build(g,p,3,2,2); int lib=g.range(0,2); int st; bool ok,maxit; if(lib==OASES){ st=g.pick(std::vector<int>{0,1,33,37,64,-1}); ok=st==0; maxit=st==64; } else if(lib==MAD){ st=g.range(0,4); ok=st==0; maxit=st==4; } else { st=g.range(0,2); ok=st==0; maxit=false; }
    bool crash=g.flip(),ext=g.flip(); int it=0; script([&](const Call&c){ Answer a=okAnswer(g,c); a.status=st; it=a.iterations; return a; }); g.note("status",st); g.nontrivial(!ok);
    humoto::Solution base; humoto::qpoases::Solution so; humoto::qpmad::Solution sm; humoto::quadprogpp::Solution sq; humoto::Solution&sol=!ext?base:lib==OASES?(humoto::Solution&)so:lib==MAD?(humoto::Solution&)sm:(humoto::Solution&)sq; p.op.form(sol,p.m,p.pr);
    int how=g.range(0,8); g.note("overload",how);
    auto go=[&]{ if(lib==OASES){ humoto::qpoases::SolverParameters par; par.crash_on_any_failure_=crash; humoto::qpoases::Solver s; oases(s,par,sol,p.op,how); } else if(lib==MAD){ humoto::qpmad::SolverParameters par; par.crash_on_any_failure_=crash; if(how&1){ humoto::qpmad::Solver s(par); s.solve(sol,p.op); } else { humoto::qpmad::Solver s; s.solve(sol,p.op,par); } } else { humoto::quadprogpp::SolverParameters par; par.crash_on_any_failure_=crash; if(how&1){ humoto::quadprogpp::Solver s(par); s.solve(sol,p.op); } else { humoto::quadprogpp::Solver s; s.solve(sol,p.op,par); } } };
    if(crash&&!ok) PBT_CHECK(pbt::throwsCleanly(go),"failure of the solver was not raised"); else go();
    humoto::SolverStatus::Status e=ok?humoto::SolverStatus::OK:maxit?humoto::SolverStatus::MAX_ITER:humoto::SolverStatus::OTHER; PBT_CHECK(sol.return_status_==e,libName(lib)<<" status "<<st<<" reported as "<<sol.return_status_);
    if(ext){ if(lib==OASES){ PBT_CHECK(so.qpoases_return_value_==st&&so.number_of_iterations_==it,"details of the status"); } else if(lib==MAD) PBT_CHECK(sm.qpmad_return_value_==st,"details of the status"); else PBT_CHECK(sq.quadprogpp_return_value_==st,"details of the status"); }
    PBT_CHECK(!sol.getStatusDescription().empty(),"description"); g.tag(std::string(libName(lib))+" "+std::to_string(st));
}
PBT_PROP(parameters_reach_the_solver,10000,100000)
{
    Prob p; build(g,p,3,2,2); humoto::Solution sol; p.op.form(sol,p.m,p.pr); script([&](const Call&c){ return okAnswer(g,c); }); bool late=g.flip(); g.nontrivial();
    if(g.flip())
    {
        humoto::qpoases::SolverParameters par; par.max_number_of_iterations_=g.range(1,5000); par.max_cpu_time_=g.chance(1,3)?0:g.real(0.001,1); par.options_.terminationTolerance=g.real(1e-9,1e-3); par.options_.boundTolerance=g.real(1e-9,1e-3); par.options_.enableDriftCorrection=g.range(0,5); par.options_.numRefinementSteps=g.range(0,5); par.options_.enableRamping=g.flip()?qpOASES::BT_TRUE:qpOASES::BT_FALSE;
        if(late){ humoto::qpoases::Solver s; s.solve(sol,p.op,par); } else { humoto::qpoases::Solver s(par); s.solve(sol,p.op); }
        const Call&c=last(); PBT_CHECK(c.max_iter==par.max_number_of_iterations_,"iteration limit"); PBT_CHECK(c.has_cpu_time==(par.max_cpu_time_!=0)&&(!c.has_cpu_time||c.cpu_time==par.max_cpu_time_),"time limit"); PBT_CHECK(c.opt_a==par.options_.terminationTolerance&&c.opt_b==par.options_.boundTolerance&&c.opt_c==par.options_.enableDriftCorrection*100+par.options_.enableRamping*10+par.options_.numRefinementSteps,"options of the library");
        humoto::qpoases::SolverParameters d; PBT_CHECK(d.options_.enableRamping==qpOASES::BT_FALSE&&d.options_.enableDriftCorrection==1&&d.max_cpu_time_==0&&d.max_number_of_iterations_>0,"defaults");
    }
    else
    {
        humoto::qpmad::SolverParameters par; par.options_.tolerance_=g.real(1e-12,1e-3); par.options_.max_iter_=g.range(1,1000); if(late){ humoto::qpmad::Solver s; s.solve(sol,p.op,par); } else { humoto::qpmad::Solver s(par); s.solve(sol,p.op); }
        PBT_CHECK(last().opt_a==par.options_.tolerance_&&last().opt_c==par.options_.max_iter_,"options of the library: tolerance "<<last().opt_a<<" instead of "<<par.options_.tolerance_<<", limit "<<last().opt_c<<" instead of "<<par.options_.max_iter_);
    }
}
static humoto::ActiveSet genAS(pbt::Case&g,const humoto::OptimizationProblem&op){ humoto::ActiveSet a; op.initializeActiveSet(a); for(size_t l=0;l<a.size();++l) for(int i=0;i<a[l].size();++i) a[l][i]=g.pick(std::vector<humoto::ConstraintActivationType::Type>{humoto::ConstraintActivationType::LOWER_BOUND,humoto::ConstraintActivationType::UPPER_BOUND,humoto::ConstraintActivationType::INACTIVE,humoto::ConstraintActivationType::EQUALITY}); return a; }
// expected place of every constraint: general ones first, in the order of the tasks
PBT_PROP(guesses_and_active_sets,30000,600000)
{
    typedef humoto::ConstraintActivationType T; humoto::qpoases::Solver s; int rounds=g.range(1,4); bool any=false;
    for(int k=0;k<rounds;++k)
    {
        Prob p; build(g,p); humoto::Solution sol,guess; humoto::ActiveSet as; p.op.form(sol,p.m,p.pr); guess.initialize(sol); guess.x_=genVec(g,p.n,true); humoto::ActiveSet ag=genAS(g,p.op); bool ug=g.flip(),ua=g.flip(),out=g.flip(); Answer ans;
        // a bound constraint list may name a variable twice: then only one of its entries is given an activation
        std::vector<int> vars; std::vector<double> slo,shi; for(auto&r:p.simp) for(int i=0;i<r.m;++i){ vars.push_back(r.idx[i]); double lo=r.lo(i),hi=r.hi(i); if(r.body==GI){ lo=lo<=-INF/2?lo:lo/r.gains[i]; hi=hi>=INF/2?hi:hi/r.gains[i]; } slo.push_back(lo); shi.push_back(hi); }
        int ng=0; for(auto&r:p.gen) ng+=r.m; std::vector<int> want(p.n,qpOASES::ST_INACTIVE); if(p.two) for(size_t i=0;i<vars.size();++i){ if(want[vars[i]]!=qpOASES::ST_INACTIVE){ ag[0][ng+i]=T::INACTIVE; continue; } T::Type t=(T::Type)ag[0][ng+i]; want[vars[i]]=t==T::UPPER_BOUND?qpOASES::ST_UPPER:t==T::INACTIVE?qpOASES::ST_INACTIVE:qpOASES::ST_LOWER; }
        script([&](const Call&c){ ans=okAnswer(g,c); return ans; });
        if(ug&&ua) { if(out) s.solve(sol,as,p.op,guess,ag); else s.solve(sol,p.op,guess,ag); } else if(ug){ if(out) s.solve(sol,as,p.op,guess); else s.solve(sol,p.op,guess); } else if(ua){ if(out) s.solve(sol,as,p.op,ag); else s.solve(sol,p.op,ag); } else { if(out) s.solve(sol,as,p.op); else s.solve(sol,p.op); }
        const Call&c=last(); pbt::checkMat(sol.x_,ans.x,"solution",0); checkQP(g,p,c.qp,0,"qpOASES with guess"); PBT_CHECK(c.has_guess==ug,"solution guess "<<(ug?"not given":"left over from an earlier call")); if(ug) pbt::checkMat(c.guess,guess.x_,"solution guess",0); PBT_CHECK(c.has_as==ua,"active set guess "<<(ua?"not given":"left over from an earlier call"));
        if(ua)
        {
            PBT_CHECK((int)c.as_constraints.size()==(p.two?ng:0)&&(int)c.as_bounds.size()==p.n||(c.as_bounds.empty()&&vars.empty()),"sizes of the active set guess");
            for(int i=0;i<ng;++i){ T::Type t=(T::Type)ag[0][i]; int w=t==T::UPPER_BOUND?1:t==T::INACTIVE?0:-1; PBT_CHECK(c.as_constraints[i]==w,"guess for constraint "<<i<<" is "<<c.as_constraints[i]<<" instead of "<<w); }
            if(p.two) for(int i=0;i<(int)c.as_bounds.size();++i) PBT_CHECK(c.as_bounds[i]==want[i],"guess for the bound of variable "<<i<<" is "<<c.as_bounds[i]<<" instead of "<<want[i]);
        }
        if(out)
        {
            PBT_CHECK(as.size()==(p.two?2u:1u),"levels of the active set"); int ol=p.two?1:0; for(int i=0;i<as[ol].size();++i) PBT_CHECK(as[ol][i]==T::EQUALITY,"objective is not marked as equality");
            if(p.two)
            {
                PBT_CHECK(as[0].size()==ng+(int)vars.size(),"size of the active set"); std::vector<bool> eq; for(auto&r:p.gen) for(int i=0;i<r.m;++i) eq.push_back(r.eq()); for(auto&r:p.simp) for(int i=0;i<r.m;++i) eq.push_back(r.eq());
                auto ty=[](double w){ return w<0?T::LOWER_BOUND:w>0?T::UPPER_BOUND:T::INACTIVE; };
                for(int i=0;i<ng;++i){ if(ans.wsc[i]!=0) any=true; PBT_CHECK(as[0][i]==ty(ans.wsc[i])||(eq[i]&&as[0][i]==T::EQUALITY),"constraint "<<i<<" in the working set as "<<ans.wsc[i]<<" is reported as "<<as[0][i]); }
                for(size_t i=0;i<vars.size();++i)
                {
                    double w=ans.wsb[vars[i]]; if(w!=0) any=true; double lo=-INF,hi=INF; for(size_t j=0;j<vars.size();++j) if(vars[j]==vars[i]){ lo=std::max(lo,std::min(slo[j],shi[j])); hi=std::min(hi,std::max(slo[j],shi[j])); }
                    bool neg=false; { int q=ng; size_t z=i; for(auto&r:p.simp){ if(z<(size_t)r.m){ neg=r.body==GI&&r.gains[z]<0; break; } z-=r.m; } (void)q; } if(neg) continue; // the sides of a negative gain are C01's business
                    bool near=(w<0&&std::fabs(slo[i]-lo)<1e-9*(1+std::fabs(lo))&&slo[i]!=lo)||(w>0&&std::fabs(shi[i]-hi)<1e-9*(1+std::fabs(hi))&&shi[i]!=hi); if(near) continue;
                    T::Type e=w<0?(slo[i]<lo?T::INACTIVE:T::LOWER_BOUND):w>0?(shi[i]>hi?T::INACTIVE:T::UPPER_BOUND):T::INACTIVE; PBT_CHECK(as[0][ng+i]==e||(eq[ng+i]&&as[0][ng+i]==T::EQUALITY),"bound "<<i<<" of variable "<<vars[i]<<" (working set "<<w<<") is reported as "<<as[0][ng+i]<<" instead of "<<e);
                }
            }
        }
    }
    g.nontrivial(any||rounds>1);
}
PBT_PROP(rejection,20000,200000)
{
    int n=g.range(1,4); humoto::OptimizationProblem op; int k=g.range(0,4); int L=k==2?g.range(3,4):(k==1?1:2); op.reset(L); g.nontrivial(); g.note("kind",k);
    for(int l=0;l<L;++l){ int bn=g.range(B,B0); if(k<=1&&l==L-1) bn=g.range(LU,U); op.pushTask(makeTask(genRef(g,n,true,1,2,-1,bn,true),"t"),l); if(g.flip()) op.pushTask(makeTask(genRef(g,n,true,1,2,-1,g.range(B,B0)),"u"),l); }
    Model m; Problem pr; pr.setVars(n); humoto::Solution s; op.form(s,m,pr); int lib=g.range(0,2); if(k==4) lib=g.range(1,2); script([&](const Call&c){ return okAnswer(g,c); }); bool two=k!=3; double reg=k==4?-g.real(0.01,1):0;
    int how=g.range(0,8); g.note("overload",how);
    PBT_CHECK(pbt::throwsCleanly([&]{ if(lib==OASES){ humoto::qpoases::SolverParameters p; p.solve_two_levels_as_qp_=two; humoto::qpoases::Solver v; oases(v,p,s,op,how); } else if(lib==MAD){ humoto::qpmad::SolverParameters p; p.solve_two_levels_as_qp_=two; p.regularization_factor_=reg; if(how&1){ humoto::qpmad::Solver v(p); v.solve(s,op); } else { humoto::qpmad::Solver v; v.solve(s,op,p); } } else { humoto::quadprogpp::SolverParameters p; p.solve_two_levels_as_qp_=two; p.regularization_factor_=reg; if(how&1){ humoto::quadprogpp::Solver v(p); v.solve(s,op); } else { humoto::quadprogpp::Solver v; v.solve(s,op,p); } } }),libName(lib)<<" accepted a hierarchy of kind "<<k);
}
PBT_MAIN
