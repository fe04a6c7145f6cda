// PBT-rule: a horizon of at least two intervals, or at least two iterations
// PBT-assume: the body position is that of the base with respect to the body in the frame of the base, as documented (doc/mpc_basic.tex)
#include "pepper_gen.h"
using namespace pg;
typedef humoto::ConstraintActivationType AT;
enum { BPOS,BVEL,BJERK,DPOS,DJERK,COP,VELB,ACCB,DPOSB,COPB,KINDS };
static const char*NAME[]={"base position reference","base velocity reference","base jerk","body position reference","body jerk","centre of pressure centering","base velocity bounds","base acceleration bounds","body position bounds","centre of pressure bounds"};
PBT_PROP(tasks, 12000, 300000)
{
    Scenario c; c.gen(g); int n=g.range(1,5),lev=g.range(1,3),done=0; humoto::OptimizationProblem op; op.reset(lev); humoto::TaskSharedPointer t[KINDS]; double gain[KINDS]; int level[KINDS];
    for(int k=0;k<KINDS;++k)
    {
        bool d=g.chance(1,5); gain[k]=d?(k==BVEL?1:0.707106781186548):g.chance(1,4)?1:g.real(.05,10)*(g.chance(1,10)?-1:1); double w=gain[k];
        switch(k){ case BPOS: t[k].reset(d?new pm::TaskBasePositionReference():new pm::TaskBasePositionReference(w)); break; case BVEL: t[k].reset(d?new pm::TaskBaseVelocityReference():new pm::TaskBaseVelocityReference(w)); break; case BJERK: t[k].reset(d?new pm::TaskBaseJerkMinimization():new pm::TaskBaseJerkMinimization(w)); break; case DPOS: t[k].reset(d?new pm::TaskBodyPositionReference():new pm::TaskBodyPositionReference(w)); break; case DJERK: t[k].reset(d?new pm::TaskBodyJerkMinimization():new pm::TaskBodyJerkMinimization(w)); break; case COP: t[k].reset(d?new pm::TaskCoPCentering():new pm::TaskCoPCentering(w)); break; case VELB: t[k].reset(new pm::TaskBaseVelocityBounds()); break; case ACCB: t[k].reset(new pm::TaskBaseAccelerationBounds()); break; case DPOSB: t[k].reset(new pm::TaskBodyPositionBounds()); break; case COPB: t[k].reset(new pm::TaskCoPPositionBounds()); break; }
        level[k]=k<lev?k:g.range(0,lev-1);
    }
    std::vector<int> perm; for(int k=0;k<KINDS;++k) perm.insert(perm.begin()+g.range(0,(int)perm.size()),k); for(int k:perm) op.pushTask(t[k],level[k]);
    bool have=false; std::vector<AT::Type> prev[KINDS];
    for(int it=0;it<n;++it,++done)
    {
        std::vector<const MP*> r; bool ok=preview(c.q,c.N,c.T,r); if(c.mpc.update(c.q,c.model)!=humoto::ControlProblemStatus::OK||!ok) break; bool guessing=have||g.flip(); humoto::Solution sol; humoto::ActiveSet as; if(guessing) op.form(sol,as,c.model,c.mpc); else op.form(sol,c.model,c.mpc); PBT_CHECK(sol.getNumberOfVariables()==4*c.N,"number of variables");
        auto loc=[&](int k){ for(auto&q:op[level[k]].tasks_) if(q.ptr_.get()==t[k].get()) return q.location_; PBT_CHECK(false,"task disappeared"); return humoto::Location(); };
        for(int q=0;q<2;++q)
        {
            VX x=c.controls(g); sol.getSolutionPart(pm::BASE_VEL_VARIABLES_ID)=x.head(2*c.N); sol.getSolutionPart(pm::BODY_JERK_VARIABLES_ID)=x.tail(2*c.N); std::vector<State> s; std::vector<V2> j; c.simulate(r,x,s,j); humoto::Violations vi; op.computeViolations(vi,sol); double yaw=c.s.yaw;
            for(U i=0;i<c.N;++i)
            {
                yaw+=r[i]->base_angular_velocity_*c.Td(); V2 rel=rot(yaw).transpose()*(s[i].pos()-V2(s[i].body(0),s[i].body(3))),cop=s[i].cop(),ref=rot(yaw)*r[i]->base_velocity_; double mag=1+s[i].base.cwiseAbs().maxCoeff()+s[i].body.cwiseAbs().maxCoeff()+j[i].cwiseAbs().maxCoeff();
                for(int k=0;k<KINDS;++k) for(int a=0;a<2;++a)
                {
                    humoto::Location l=loc(k); PBT_CHECK(l.length_==2*c.N,NAME[k]<<" has "<<l.length_<<" rows"); U o=l.offset_+2*i+a; auto&v=vi[level[k]]; double tol=1e-8*mag*std::max(1.,std::fabs(gain[k])); std::string what=std::string(NAME[k])+", interval "+std::to_string(i);
                    if(k<VELB){ double w=k==BPOS?s[i].base(3*a)-r[i]->base_position_(a):k==BVEL?s[i].base(3*a+1)-ref(a):k==BJERK?j[i](a):k==DPOS?rel(a):k==DJERK?x(2*c.N+2*i+a):cop(a); w*=gain[k]; PBT_CHECK(std::fabs(v[o]-w)<=tol,"residual of "<<what<<" is "<<v[o]<<" instead of "<<w); PBT_CHECK(std::fabs(v.getLower(o)-v[o])<=tol&&std::fabs(v.getUpper(o)-v[o])<=tol,what<<" is not an equality"); }
                    else { double b=k==VELB?c.rp.max_nominal_base_velocity_:k==ACCB?c.rp.max_nominal_base_acceleration_:c.rp.base_radius_,lo=-b/std::sqrt(2.),hi=-lo,val=k==VELB?s[i].base(3*a+1):k==ACCB?s[i].base(3*a+2):k==DPOSB?rel(a):cop(a); if(k==DPOSB){ lo=c.rp.body_bounds_(a,0); hi=c.rp.body_bounds_(a,1); } double t2=1e-8*mag; PBT_CHECK(std::fabs(v.getLower(o)-(val-lo))<=t2&&std::fabs(v.getUpper(o)-(val-hi))<=t2,what<<": distances to the bounds are "<<v.getLower(o)<<" "<<v.getUpper(o)<<" instead of "<<val-lo<<" "<<val-hi); }
                }
            }
        }
        if(guessing)
        {
            for(int k=0;k<KINDS;++k){ humoto::Location l=loc(k); for(U i=0;i<2*c.N;++i){ AT::Type w=k<VELB?AT::EQUALITY:have&&c.T==c.Ts&&i+2<2*c.N?prev[k][i+2]:AT::INACTIVE; if(k>=VELB&&c.T!=c.Ts) w=AT::INACTIVE; PBT_CHECK(as[level[k]][l.offset_+i]==w,"guessed activation of "<<NAME[k]<<", row "<<i<<" is "<<as[level[k]][l.offset_+i]<<" instead of "<<w); } }
            humoto::ActiveSet act; op.initializeActiveSet(act); for(int k=0;k<KINDS;++k){ prev[k].clear(); humoto::Location l=loc(k); for(U i=0;i<l.length_;++i){ AT::Type y=k<VELB?AT::EQUALITY:g.pick(std::vector<AT::Type>{AT::INACTIVE,AT::LOWER_BOUND,AT::UPPER_BOUND}); act[level[k]][l.offset_+i]=y; prev[k].push_back(y); } } op.processActiveSet(act); have=true;
        }
        VX x=c.controls(g); pm::ModelState ns=c.mpc.getNextModelState(c.solution(x),c.model); c.model.updateState(ns); c.s.base=c.model.getMPCBaseState(); c.s.body=c.model.getMPCBodyState(); c.s.yaw=c.model.getTheta(); c.mpc.shift(c.q); 
    }
    g.nontrivial(c.N>1||done>1);
}
PBT_MAIN
