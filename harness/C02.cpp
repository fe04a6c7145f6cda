// PBT-rule: an objective made of at least two equality tasks with rows, or a history of at least two objectives on one object
#include "core_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg;
struct Level { std::vector<Ref> refs; humoto::OptimizationProblem op; Model m; Problem pr; humoto::Solution s; int n; bool simple; };
static void build(pbt::Case&g,Level&l,bool dy,int levels=1,bool onlysimple=false)
{
    l.n=g.size(1,7,40); int k=g.size(1,5,20); l.op.reset(levels); int rows=0; bool forcesimple=onlysimple||g.chance(1,4); l.simple=true;
    for(int i=0;i<k;++i){ Ref r=genRef(g,l.n,dy,(i==k-1&&rows==0)?1:0,5,forcesimple?g.range(I,GI):-1,g.range(B,B0)); rows+=r.m; if(!r.simple()&&r.m>0) l.simple=false; l.refs.push_back(r); l.op.pushTask(makeTask(r,"t"+std::to_string(i)),levels-1); g.note("t",r.name()); }
    if(levels==2){ Ref r=genRef(g,l.n,dy,1,3,A,B); l.op.pushTask(makeTask(r,"c"),0); }
    l.pr.setVars(l.n); l.op.form(l.s,l.m,l.pr);
}
static double cost(const Level&l,const VectorXd&x){ double c=0; for(auto&r:l.refs){ VectorXd e=r.dense*x; for(int i=0;i<r.m;++i) e[i]-=r.lo(i); c+=0.5*e.squaredNorm(); } return c; }
static void reference(const Level&l,MatrixXd&H,VectorXd&gr){ H=MatrixXd::Zero(l.n,l.n); gr=VectorXd::Zero(l.n); for(auto&r:l.refs){ VectorXd b(r.m); for(int i=0;i<r.m;++i) b[i]=r.lo(i); H+=r.dense.transpose()*r.dense; gr-=r.dense.transpose()*b; } }
template<class QP> void verify(pbt::Case&g,const Level&l,const QP&qp,bool full)
{
    MatrixXd H; VectorXd gr; reference(l,H,gr); const QP&c=qp; // const access: the non-const getters mark the objective as modified
    MatrixXd M=c.getHessian(); VectorXd v=c.getGradient();
    PBT_CHECK(M.rows()==l.n&&M.cols()==l.n&&v.rows()==l.n,"objective size");
    pbt::checkMat(v,gr,"gradient");
    for(int i=0;i<l.n;++i) for(int j=0;j<=i;++j) PBT_CHECK(std::fabs(M(i,j)-H(i,j))<=1e-9*(1+H.cwiseAbs().maxCoeff()),"H("<<i<<","<<j<<") is "<<M(i,j)<<", expected "<<H(i,j));
    if(full) pbt::checkMat(M,H,"full H");
    switch(c.getHessianType())
    {
        case humoto::QPObjective::HESSIAN_DIAGONAL: for(int i=0;i<l.n;++i) for(int j=0;j<l.n;++j) if(i!=j) PBT_CHECK(std::fabs(H(i,j))<=1e-12,"declared diagonal"); g.tag("diagonal"); break;
        case humoto::QPObjective::HESSIAN_GENERIC: PBT_CHECK(full,"declared generic without an upper triangle"); g.tag("generic"); break;
        case humoto::QPObjective::HESSIAN_LOWER_TRIANGULAR: PBT_CHECK(!full,"declared lower triangular although the full matrix was requested"); g.tag("lower"); break;
        default: pbt::fail("undefined hessian type");
    }
    PBT_CHECK(c.getStatus()==humoto::QPObjective::INITIALIZED,"status");
    MatrixXd S=M.template selfadjointView<Eigen::Lower>(); double c0=cost(l,VectorXd::Zero(l.n));
    for(int k=0;k<3;++k){ VectorXd x=genVec(g,l.n,false); double q=0.5*x.dot(S*x)+v.dot(x); double e=cost(l,x)-c0; PBT_CHECK(std::fabs(q-e)<=1e-8*(1+cost(l,x)+c0),"objective at a point: "<<q<<" vs "<<e); }
}
PBT_PROP(objective,120000,3000000)
{
    Level l; build(g,l,g.flip()); g.nontrivial(l.refs.size()>1); bool full=g.flip();
    humoto::QPObjective o; o.initializeObjective(l.op[0],full); verify(g,l,o,full);
    if(full){ MatrixXd H=static_cast<const humoto::QPObjective&>(o).getHessian(); double f=g.real(0.001,5); o.regularize(f); MatrixXd H2=static_cast<const humoto::QPObjective&>(o).getHessian(); pbt::checkMat(H2,MatrixXd(H+f*MatrixXd::Identity(l.n,l.n)),"regularisation"); PBT_CHECK(o.getStatus()==humoto::QPObjective::MODIFIED,"status after regularisation"); }
}
PBT_PROP(reuse_history,40000,800000)
{   // one problem object for a history of problems of varying sizes; objective always from the last level
    humoto::QPProblem_AB qp; int k=g.range(2,4); g.nontrivial();
    for(int i=0;i<k;++i){ Level l; int lev=g.range(1,2); build(g,l,g.flip(),lev); bool full=g.flip(); l.op.getQPProblem(qp,l.s,full); verify(g,l,qp,full); }
}
PBT_PROP(order_independent,20000,400000)
{   // the objective does not depend on the order in which tasks were pushed
    int n=g.size(1,6,30),k=g.size(2,5,12); std::vector<Ref> rs; int rows=0; for(int i=0;i<k;++i){ rs.push_back(genRef(g,n,true,i==0?1:0,4,-1,g.range(B,B0))); rows+=rs.back().m; }
    std::vector<int> perm(k); for(int i=0;i<k;++i) perm[i]=i; for(int i=k-1;i>0;--i) std::swap(perm[i],perm[g.range(0,i)]); g.nontrivial();
    MatrixXd H[2]; VectorXd v[2]; for(int w=0;w<2;++w){ humoto::OptimizationProblem op; op.reset(1); for(int i=0;i<k;++i) op.pushTask(makeTask(rs[w?perm[i]:i],"t"),0); Model m; Problem pr; pr.setVars(n); humoto::Solution s; op.form(s,m,pr); humoto::QPProblem_AB qp; op.getQPProblem(qp,s); const humoto::QPProblem_AB&c=qp; H[w]=c.getHessian(); v[w]=c.getGradient(); }
    pbt::checkMat(H[1],H[0],"H"); pbt::checkMat(v[1],v[0],"g");
}
PBT_PROP(inequality_rejected,20000,200000)
{
    int n=g.range(1,5); humoto::OptimizationProblem op; op.reset(1); int k=g.range(1,3); bool bad=false; for(int i=0;i<k;++i){ Ref r=genRef(g,n,true,1,3,-1,g.chance(1,3)?g.range(LU,U):g.range(B,B0)); if(!r.eq()) bad=true; op.pushTask(makeTask(r,"t"),0); g.note("t",r.name()); }
    Model m; Problem pr; pr.setVars(n); humoto::Solution s; op.form(s,m,pr); g.nontrivial(bad); humoto::QPProblem_AB qp; PBT_CHECK(pbt::throwsCleanly([&]{ op.getQPProblem(qp,s); })==bad,"inequality objective "<<(bad?"accepted":"false rejection"));
}
// The documented generic tasks: zero all variables / a named part / selected variables with a gain
PBT_PROP(generic_zero_tasks,60000,800000)
{
    std::vector<std::pair<std::string,int> > parts; int np=g.range(1,4),n=0; for(int i=0;i<np;++i){ int len=g.size(1,4,20); parts.push_back(std::make_pair("p"+std::to_string(i),len)); n+=len; }
    double gain=g.real(0.25,4); int kind=g.range(0,2); humoto::OptimizationProblem op; op.reset(1); VectorXd d=VectorXd::Zero(n); boost::shared_ptr<humoto::TaskZeroVariables> zt;
    if(kind==0){ zt.reset(new humoto::TaskZeroVariables(gain)); d.setConstant(gain*gain); op.pushTask(zt,0); }
    else if(kind==1){ int w=g.range(0,np-1); zt.reset(new humoto::TaskZeroVariables(gain,"z",parts[w].first)); int off=0; for(int i=0;i<w;++i) off+=parts[i].second; d.segment(off,parts[w].second).setConstant(gain*gain); op.pushTask(zt,0); }
    else { std::vector<unsigned> ix; int k=g.range(1,4); for(int i=0;i<k;++i){ unsigned q=g.range(0,n-1); ix.push_back(q); d[q]+=gain*gain; } op.pushTask(boost::shared_ptr<humoto::TaskZeroSelectedVariables>(new humoto::TaskZeroSelectedVariables(iv(ix),gain)),0); }
    Model m; Problem pr; pr.setParts(parts); humoto::Solution s; g.nontrivial(); g.note("kind",kind).note("n",n);
    for(int rep=0;rep<3;++rep)
    {
        op.form(s,m,pr); humoto::QPProblem_AB qp; op.getQPProblem(qp,s); const humoto::QPProblem_AB&c=qp; pbt::checkMat(c.getHessian(),MatrixXd(d.asDiagonal()),"H of a zeroing task"); pbt::checkMat(c.getGradient(),VectorXd(VectorXd::Zero(n)),"g"); PBT_CHECK(c.getHessianType()==humoto::QPObjective::HESSIAN_DIAGONAL,"hessian type");
        if(zt&&g.flip()){ double ng=g.real(0.25,4); for(int i=0;i<n;++i) if(d[i]!=0) d[i]=ng*ng; zt->setGain(ng); g.tag("gain changed"); }
    }
}
PBT_MAIN
