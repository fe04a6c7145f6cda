// PBT-rule: a level of at least two tasks with at least one row each (or a conversion of a non-empty task)
// PBT-assume: bounds of magnitude 1e20 stand for "no bound", as the library documents
#include "core_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg;
using humoto::constraints::ContainerALU; using humoto::constraints::ContainerAL; using humoto::constraints::ContainerAB; using humoto::constraints::ContainerILU;

static const double MARK=777.25;

// one formed task on level 0
struct One { humoto::OptimizationProblem op; Model m; Problem pr; humoto::Solution s; TestTaskBase*t; Ref r;
    One(const Ref&rr):r(rr){ op.reset(1); op.pushTask(makeTask(rr,"t",&t),0); // an extra row keeps levels with empty tasks legal
        Ref e; e.body=A; e.bnd=B0; e.n=rr.n; e.m=1; e.offset=0; e.Araw=MatrixXd::Ones(1,rr.n); e.dense=e.Araw; op.pushTask(makeTask(e,"pad"),0);
        pr.setVars(rr.n); op.form(s,m,pr); } };

static void checkMarks(const MatrixXd&M,int from,int len,const char*w){ for(int i=0;i<M.rows();++i) if(i<from||i>=from+len) for(int j=0;j<M.cols();++j) PBT_CHECK(M(i,j)==MARK, w<<": row "<<i<<" outside of the reserved rows was changed"); }

PBT_PROP(conversion,60000,1500000)
{
    int n=g.size(1,6,40); Ref r=genRef(g,n,g.flip(),0,4);
    g.note("task",r.name()); g.tag(std::string(bodyName(r.body))+bndName(r.bnd)); g.nontrivial(r.m>0);
    One o(r); const humoto::TaskBase &t=o.t->task();
    PBT_CHECK(t.getType()==r.type(),"type"); PBT_CHECK(t.isEquality()==r.eq(),"isEquality "<<r.name()); PBT_CHECK(t.isSimple()==r.simple(),"isSimple"); PBT_CHECK(t.isTwoSidedInequality()==r.two(),"isTwoSided");
    PBT_CHECK((int)t.getNumberOfConstraints()==r.m,"number of constraints"); PBT_CHECK((int)t.getNumberOfVariables()==n,"number of variables");
    int off=g.range(0,3), tail=g.range(0,2);
    { // two-sided dense
        ContainerALU c; c.reset(off+r.m+tail,n,true); c.getA().setConstant(MARK); c.getLowerBounds().setConstant(MARK); c.getUpperBounds().setConstant(MARK);
        size_t e=t.copyTo(c,off); PBT_CHECK((int)e==off+r.m,"end offset "<<e);
        VectorXd lo(r.m),hi(r.m); for(int i=0;i<r.m;++i){lo[i]=r.lo(i);hi[i]=r.hi(i);}
        pbt::checkMat(c.getA().middleRows(off,r.m),r.dense,"ALU A"); pbt::checkMat(c.getLowerBounds().segment(off,r.m),lo,"ALU lb"); pbt::checkMat(c.getUpperBounds().segment(off,r.m),hi,"ALU ub");
        checkMarks(c.getA(),off,r.m,"ALU A"); checkMarks(c.getLowerBounds(),off,r.m,"ALU lb"); checkMarks(c.getUpperBounds(),off,r.m,"ALU ub");
        if(r.m>0){ ContainerALU d; d.reset(off+r.m-1,n,true); PBT_CHECK(pbt::throwsCleanly([&]{ t.copyTo(d,off); }),"rows beyond the reserved storage accepted"); }
    }
    { // lower bounded
        int rows = r.two()?2*r.m:r.m; ContainerAL c; c.reset(off+rows+tail,n,true); c.getA().setConstant(MARK); c.getLowerBounds().setConstant(MARK);
        bool th=pbt::throwsCleanly([&]{ size_t e=t.copyTo(c,off); PBT_CHECK((int)e==off+rows,"AL end offset "<<e); });
        PBT_CHECK(th==r.eq(),"conversion to lower bounded form: equality must be rejected, inequality accepted ("<<r.name()<<")");
        if(!th)
        {
            checkMarks(c.getA(),off,rows,"AL A"); checkMarks(c.getLowerBounds(),off,rows,"AL lb");
            // same rows irrespective of order: match each expected row once
            std::vector<bool> used(rows,false);
            auto take=[&](const Eigen::RowVectorXd&a,double lb){ for(int k=0;k<rows;++k) if(!used[k]&&c.getA().row(off+k)==a&&c.getLowerBounds()[off+k]==lb){ used[k]=true; return true; } return false; };
            for(int i=0;i<r.m;++i){ if(r.bnd!=U) PBT_CHECK(take(r.dense.row(i),r.lb[i]),"lower row "<<i<<" missing in "<<r.name()); if(r.bnd!=L) PBT_CHECK(take(-r.dense.row(i),-r.ub[i]),"negated upper row "<<i<<" missing in "<<r.name()); }
        }
    }
    { // equality
        ContainerAB c; c.reset(off+r.m+tail,n,true); c.getA().setConstant(MARK); c.getB().setConstant(MARK);
        bool th=pbt::throwsCleanly([&]{ size_t e=t.copyTo(c,off); PBT_CHECK((int)e==off+r.m,"AB end offset "<<e); });
        PBT_CHECK(th!=r.eq(),"conversion to equality form: inequality must be rejected, equality accepted ("<<r.name()<<")");
        if(!th){ VectorXd b(r.m); for(int i=0;i<r.m;++i) b[i]=r.lo(i); pbt::checkMat(c.getA().middleRows(off,r.m),r.dense,"AB A"); pbt::checkMat(c.getB().segment(off,r.m),b,"AB b"); checkMarks(c.getA(),off,r.m,"AB A"); checkMarks(c.getB(),off,r.m,"AB b"); }
    }
    { // indexed bounds
        ContainerILU c; c.reset(off+r.m+tail,n,true); c.getIndices().setConstant(777); c.getLowerBounds().setConstant(MARK); c.getUpperBounds().setConstant(MARK);
        bool th=pbt::throwsCleanly([&]{ size_t e=t.copyTo(c,off); PBT_CHECK((int)e==off+r.m,"ILU end offset "<<e); });
        PBT_CHECK(r.simple() || th,"general constraint accepted as indexed bounds ("<<r.name()<<")");
        if(r.body==I) PBT_CHECK(!th,"indexed constraint rejected as indexed bounds");
        if(!th)
        {   // whatever is accepted has to describe the same set
            for(int i=0;i<r.m;++i)
            {
                PBT_CHECK(c.getIndices()[off+i]==r.idx[i],"ILU index"); double gn=r.body==I?1:r.gains[i];
                if(gn==1) { PBT_CHECK(c.getLowerBounds()[off+i]==r.lo(i) && c.getUpperBounds()[off+i]==r.hi(i),"ILU bounds of row "<<i); }
                else { double x=val(g,false)*2; bool in=(gn*x>=r.lo(i)&&gn*x<=r.hi(i)); bool in2=(x>=c.getLowerBounds()[off+i]&&x<=c.getUpperBounds()[off+i]); PBT_CHECK(in==in2,"ILU row "<<i<<" describes another set"); }
            }
            for(int i=0;i<off+r.m+tail;++i) if(i<off||i>=off+r.m) PBT_CHECK(c.getIndices()[i]==777&&c.getLowerBounds()[i]==MARK&&c.getUpperBounds()[i]==MARK,"ILU row outside changed");
        }
    }
}

struct Level { std::vector<Ref> refs; std::vector<TestTaskBase*> tasks; humoto::OptimizationProblem op; Model m; Problem pr; humoto::Solution s; int n; };
static void build(pbt::Case&g,Level&l,int body,int bndmode,bool dy,bool consistent)
{
    l.n=g.size(1,6,30); int k=g.size(1,5,20); l.op.reset(1); int rows=0;
    for(int i=0;i<k;++i)
    {
        int b = body==-2 ? (g.flip()?(int)I:g.range((int)A,(int)AS)) : body; int bn=-1; if(bndmode==1) bn=g.range(B,B0); if(bndmode==2) bn=g.range(LU,U);
        Ref r=genRef(g,l.n,dy,(i==k-1&&rows==0)?1:0,4,b,bn,consistent); rows+=r.m; l.refs.push_back(r); TestTaskBase*t; l.op.pushTask(makeTask(r,"t"+std::to_string(i),&t),0); l.tasks.push_back(t); g.note("t",r.name());
    }
    l.pr.setVars(l.n); l.op.form(l.s,l.m,l.pr);
}
static bool inside(const Level&l,const VectorXd&x,bool general,bool simple,double tol,bool&amb)
{   // membership in the reference set; amb when within rounding of a bound
    bool in=true; amb=false;
    for(auto&r:l.refs){ if(r.simple()?!simple:!general) continue; VectorXd p=r.dense*x; for(int i=0;i<r.m;++i){ double lo=r.lo(i),hi=r.hi(i); if(std::fabs(p[i]-lo)<tol||std::fabs(p[i]-hi)<tol) amb=true; if(p[i]<lo||p[i]>hi) in=false; } }
    return in;
}
// points: random, or exactly satisfying some rows
static VectorXd point(pbt::Case&g,const Level&l){ VectorXd x=genVec(g,l.n,true); return x; }

PBT_PROP(level_sets,40000,800000)
{   // whole levels of mixed forms: the containers describe exactly the reference set
    Level l; build(g,l,-2,0,true,false); g.nontrivial(l.refs.size()>1);
    const humoto::HierarchyLevel&h=l.op[0];
    int neq=0,ntwo=0,ns=0,ng=0; for(auto&r:l.refs){ if(r.eq())neq+=r.m; if(r.two())ntwo+=r.m; (r.simple()?ns:ng)+=r.m; }
    PBT_CHECK((int)h.getNumberOfConstraints()==ns+ng && (int)h.getNumberOfSimpleConstraints()==ns && (int)h.getNumberOfGeneralConstraints()==ng && (int)h.getNumberOfEqualityConstraints()==neq && (int)h.getNumberOfInequalityConstraints()==ns+ng-neq && (int)h.getNumberOfInequalityConstraintsOneSided()==ns+ng-neq+ntwo,"counts");
    ContainerALU all,gen; ContainerAL ine; ContainerAB eq; ContainerILU sim;
    h.getAllConstraints(all,l.s); h.getGeneralConstraints(gen,l.s); h.getInequalityConstraints(ine,l.s); h.getEqualityConstraints(eq,l.s); h.getSimpleConstraints(sim,l.s);
    PBT_CHECK((int)all.getA().rows()==ns+ng&&(int)gen.getA().rows()==ng&&(int)sim.getNumberOfConstraints()==ns&&(int)eq.getA().rows()==neq,"container sizes");
    PBT_CHECK((int)all.getNumberOfVariables()==l.n&&(int)all.getA().cols()==l.n,"columns");
    for(int k=0;k<6;++k)
    {
        VectorXd x=point(g,l); bool amb; // dyadic data: evaluation is exact
        bool in=inside(l,x,true,true,0,amb);
        bool ia=true; { VectorXd p=all.getA()*x; for(int i=0;i<p.rows();++i) if(p[i]<all.getLowerBounds()[i]||p[i]>all.getUpperBounds()[i]) ia=false; }
        PBT_CHECK(ia==in,"two-sided dense form: membership differs");
        bool ii=true; { VectorXd p=ine.getA()*x; for(int i=0;i<p.rows();++i) if(p[i]<ine.getLowerBounds()[i]) ii=false; } { VectorXd p=eq.getA()*x; for(int i=0;i<p.rows();++i) if(p[i]!=eq.getB()[i]) ii=false; }
        PBT_CHECK(ii==in,"equality + one-sided form: membership differs");
        bool ig=true; { VectorXd p=gen.getA()*x; for(int i=0;i<p.rows();++i) if(p[i]<gen.getLowerBounds()[i]||p[i]>gen.getUpperBounds()[i]) ig=false; }
        PBT_CHECK(ig==inside(l,x,true,false,0,amb),"general constraints: membership differs");
        bool is=true; for(int i=0;i<ns;++i){ double v=x[sim.getIndices()[i]]; if(v<sim.getLowerBounds()[i]||v>sim.getUpperBounds()[i]) is=false; }
        PBT_CHECK(is==inside(l,x,false,true,0,amb),"simple constraints: membership differs");
        if(in) g.tag("point inside"); else g.tag("point outside");
    }
    // row-exact: the rows of each task are at its own location
    int gi=0; for(auto it=h.tasks_.begin();it!=h.tasks_.end();++it){ const Ref*r=0; for(size_t q=0;q<l.tasks.size();++q) if(&l.tasks[q]->task()==it->ptr_.get()) r=&l.refs[q]; PBT_CHECK(r!=0,"unknown task"); PBT_CHECK((int)it->location_.length_==r->m,"location length");
        for(int i=0;i<r->m;++i){ int row=it->location_.offset_+i; PBT_CHECK(row<all.getA().rows()&&all.getA().row(row)==r->dense.row(i)&&all.getLowerBounds()[row]==r->lo(i)&&all.getUpperBounds()[row]==r->hi(i),"row "<<row<<" is not row "<<i<<" of its task "<<r->name()); } (void)gi; }
}

PBT_PROP(bound_intersection,60000,1500000)
{
    Level l; build(g,l,I,0,true,g.chance(2,3)); g.nontrivial(l.refs.size()>1);
    VectorXd lo=VectorXd::Constant(l.n,-INF),hi=VectorXd::Constant(l.n,INF); int rows=0;
    for(auto&r:l.refs) for(int i=0;i<r.m;++i){ ++rows; lo[r.idx[i]]=std::max(lo[r.idx[i]],r.lo(i)); hi[r.idx[i]]=std::min(hi[r.idx[i]],r.hi(i)); }
    bool bad=false; for(int i=0;i<l.n;++i) if(lo[i]>hi[i]) bad=true;
    humoto::QPProblem_ILU_ALU qp; bool th=pbt::throwsCleanly([&]{ qp.initializeConstraints(l.op[0],l.s); });
    g.tag(bad?"contradictory":"consistent"); PBT_CHECK(th==bad,(bad?"contradictory bounds accepted":"consistent bounds rejected"));
    if(!bad){ pbt::checkMat(qp.getSolutionLowerBounds(),lo,"lower bounds"); pbt::checkMat(qp.getSolutionUpperBounds(),hi,"upper bounds"); PBT_CHECK((int)qp.getSimpleBounds().getNumberOfConstraints()==rows,"simple rows"); PBT_CHECK(qp.getGeneralConstraints().getA().rows()==0,"no general rows expected"); }
}

PBT_PROP(qp_constraints_reuse,15000,300000)
{   // one problem object for successive levels equals a fresh one (general constraints, intersected bounds)
    humoto::QPProblem_ILU_ALU used; humoto::QPProblem_AB_AL used2; int steps=g.range(2,4); g.nontrivial();
    for(int s=0;s<steps;++s)
    {
        Level l; build(g,l,-2,0,true,true); humoto::QPProblem_ILU_ALU fresh; humoto::QPProblem_AB_AL fresh2;
        bool a=pbt::throwsCleanly([&]{ fresh.initializeConstraints(l.op[0],l.s); }), b=pbt::throwsCleanly([&]{ used.initializeConstraints(l.op[0],l.s); });
        PBT_CHECK(a==b,"reuse changes acceptance"); if(!a){
            pbt::checkMat(used.getSolutionLowerBounds(),fresh.getSolutionLowerBounds(),"lb"); pbt::checkMat(used.getSolutionUpperBounds(),fresh.getSolutionUpperBounds(),"ub");
            pbt::checkMat(used.getGeneralConstraints().getA(),fresh.getGeneralConstraints().getA(),"A"); pbt::checkMat(used.getGeneralConstraints().getLowerBounds(),fresh.getGeneralConstraints().getLowerBounds(),"A lb"); pbt::checkMat(used.getGeneralConstraints().getUpperBounds(),fresh.getGeneralConstraints().getUpperBounds(),"A ub");
            // reference for the bounds
            VectorXd lo=VectorXd::Constant(l.n,-INF),hi=VectorXd::Constant(l.n,INF); int ns=0; for(auto&r:l.refs) if(r.simple()) for(int i=0;i<r.m;++i){ ++ns; lo[r.idx[i]]=std::max(lo[r.idx[i]],r.lo(i)); hi[r.idx[i]]=std::min(hi[r.idx[i]],r.hi(i)); }
            if(ns){ pbt::checkMat(used.getSolutionLowerBounds(),lo,"lb ref"); pbt::checkMat(used.getSolutionUpperBounds(),hi,"ub ref"); } else PBT_CHECK(used.getSolutionLowerBounds().size()==0&&used.getSolutionUpperBounds().size()==0,"bounds without simple constraints"); }
        used2.initializeConstraints(l.op[0],l.s); fresh2.initializeConstraints(l.op[0],l.s);
        pbt::checkMat(used2.getEqualities().getA(),fresh2.getEqualities().getA(),"eq A"); pbt::checkMat(used2.getEqualities().getB(),fresh2.getEqualities().getB(),"eq b"); pbt::checkMat(used2.getInequalities().getA(),fresh2.getInequalities().getA(),"ineq A"); pbt::checkMat(used2.getInequalities().getLowerBounds(),fresh2.getInequalities().getLowerBounds(),"ineq lb");
    }
}

PBT_PROP(inconsistent_sizes_rejected,20000,200000)
{   // a task whose bounds/gains/columns do not fit its body is rejected when formed
    int n=g.size(1,5,20); Ref r=genRef(g,n,true,1,4); r.style=0; int what=g.range(0,3); bool broken=false; int d=g.flip()?1:-1; if(r.m+d<1) d=1; bool def=true;
    auto rs=[&](VectorXd&v){ VectorXd w=VectorXd::Zero(r.m+d); v=w; broken=true; };
    switch(what){ case 0: if(r.bnd==LU||r.bnd==L) rs(r.lb); break; case 1: if(r.bnd==LU||r.bnd==U) rs(r.ub); break; case 2: if(r.bnd==B) rs(r.b); break;
        case 3: if(r.body==GI) rs(r.gains); else if(r.body==A){ MatrixXd M=MatrixXd::Ones(r.m,n+d<0?0:n+d); r.Araw=M; broken=true; } else if(r.body==AS){ r.offset=n-r.Araw.cols()+1+g.range(0,2); broken=true; } }
    g.nontrivial(broken); g.note("task",r.name()).note("what",what); (void)def;
    humoto::OptimizationProblem op; op.reset(1); op.pushTask(makeTask(r,"t"),0); Model m; Problem pr; pr.setVars(n); humoto::Solution s;
    PBT_CHECK(pbt::throwsCleanly([&]{ op.form(s,m,pr); })==broken, "mismatching sizes "<<(broken?"accepted":"reported for a consistent task")<<": "<<r.name()<<" what="<<what);
}
PBT_MAIN
