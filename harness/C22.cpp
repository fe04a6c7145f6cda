// PBT-rule: the horizon contains a variable step, or the tasks were formed at least twice
// PBT-assume: as C21 | the guess of an active set is compared only where it is unambiguous which footsteps continue (the horizon does not gain one and lose another at once)
#include "wpg_gen.h"
using namespace wg;
typedef humoto::ConstraintActivationType AT;
enum { VEL,POS,DCOP,TERM,COPB,STEPB,KINDS };
static const char*NAME[]={"centre of mass velocity","centre of pressure position","centre of pressure velocity","terminal condition","centre of pressure bounds","footstep bounds"};
PBT_PROP(tasks, 9000, 250000)
{
    Scenario s; s.gen(g,g.chance(2,3)); int n=g.range(1,8),lev=g.range(1,3),done=0; bool steps=false; humoto::OptimizationProblem op; op.reset(lev); humoto::TaskSharedPointer t[KINDS]; double gain[KINDS]; int level[KINDS]; bool fix=g.chance(1,3); std::vector<std::vector<int> > order(lev);
    for(int k=0;k<KINDS;++k){ gain[k]=g.chance(1,4)?1:g.real(0.05,20); if(g.chance(1,10)) gain[k]=-gain[k]; bool dflt=g.chance(1,5);
        switch(k){ case VEL: if(dflt){ gain[k]=0.707106781186548; t[k].reset(new w4::TaskCoMVelocity()); } else t[k].reset(new w4::TaskCoMVelocity(gain[k])); break; case POS: if(dflt){ gain[k]=12.2474487139159; t[k].reset(new w4::TaskCoPPosition()); } else t[k].reset(new w4::TaskCoPPosition(gain[k])); break; case DCOP: if(dflt){ gain[k]=0.223606797749979; t[k].reset(new w4::TaskCoPVelocity()); } else t[k].reset(new w4::TaskCoPVelocity(gain[k])); break; case TERM: if(dflt){ gain[k]=1; t[k].reset(new w4::TaskTerminalConstraint()); } else t[k].reset(new w4::TaskTerminalConstraint(gain[k])); break; case COPB: t[k].reset(new w4::TaskCoPBounds()); break; case STEPB: if(fix||g.flip()) t[k].reset(new w4::TaskFootstepBounds(fix)); else t[k].reset(new w4::TaskFootstepBounds()); break; } level[k]=k<lev?k:g.range(0,lev-1); }
    std::vector<int> perm; for(int k=0;k<KINDS;++k) perm.insert(perm.begin()+g.range(0,(int)perm.size()),k);
    level[STEPB]=level[COPB]; // a level without constraints is an error
    for(int k:perm) op.pushTask(t[k],level[k]);
    bool have=false; std::vector<AT::Type> oc,of; std::vector<U> ob; g.note("fixed steps",fix);
    for(int it=0;it<n;++it,++done)
    {
        if(g.chance(1,8)) s.velocities(g);
        Horizon H=s.horizon(); if(s.mpc.update(s.model,s.fsm,s.wp)!=humoto::ControlProblemStatus::OK) break; steps=steps||!H.var.empty(); std::vector<U> e,b; { U x=s.t; for(auto&v:H.iv) e.push_back(x+=v.T); for(int k:H.var) b.push_back(k?e[k-1]:s.t); }
        humoto::Solution sol,guess,old; humoto::ActiveSet as; bool guessing=have||g.flip(); if(guessing) op.form(sol,as,s.model,s.mpc); else op.form(sol,s.model,s.mpc); PBT_CHECK(sol.getNumberOfVariables()==2*(s.N+H.var.size()),"number of variables");
        auto loc=[&](int k){ for(auto&q:op[level[k]].tasks_) if(q.ptr_.get()==t[k].get()) return q.location_; PBT_CHECK(false,"task disappeared"); return humoto::Location(); };
        for(int q=0;q<2;++q)
        {
            VX x(2*(s.N+H.var.size())); for(int i=0;i<x.size();++i) x(i)=g.real(-1,1)*(q?1:0.2); sol.x_=x; Scenario::Motion m=s.simulate(H,x.head(2*s.N),x.tail(2*H.var.size())); humoto::Violations vi; op.computeViolations(vi,sol);
            for(int k=0;k<KINDS;++k)
            {
                humoto::Location l=loc(k); U rows=k==TERM?2:k==STEPB?2*H.var.size():2*s.N; PBT_CHECK(l.length_==rows,NAME[k]<<": "<<l.length_<<" rows instead of "<<rows); auto&v=vi[level[k]]; double tol=1e-10*s.amp()*std::max(1.,std::fabs(gain[k]));
                for(U i=0;i<rows;++i)
                {
                    U o=l.offset_+i; int a=i%2; U j=i/2; std::string what=std::string(NAME[k])+", row "+std::to_string(i);
                    if(k<COPB){ double want=k==VEL?m.x[j](3*a+1)-H.iv[j].vel(a):k==POS?x(i):k==DCOP?m.dcop[j](a):m.x[s.N-1](3*a+1)+m.x[s.N-1](3*a+2)/s.w; PBT_CHECK(std::fabs(v[o]-gain[k]*want)<=tol,"residual of "<<what<<" is "<<v[o]<<" instead of "<<gain[k]*want); PBT_CHECK(std::fabs(v.getLower(o)-v[o])<=tol&&std::fabs(v.getUpper(o)-v[o])<=tol,what<<" is not an equality"); }
                    else { M2 bb=k==COPB?s.copBounds(H.iv[j]):s.stepBounds(H.iv[H.var[j]]); double lo=bb(a,0),hi=bb(a,1),val=x(k==COPB?i:2*s.N+i); if(k==STEPB&&fix){ bool right=H.iv[H.var[j]].type==ST::RSS; lo=hi=a==0||right?hi:lo; } PBT_CHECK(std::fabs(v.getLower(o)-(val-lo))<=1e-11&&std::fabs(v.getUpper(o)-(val-hi))<=1e-11,what<<": bounds are "<<val-v.getLower(o)<<" "<<val-v.getUpper(o)<<" instead of "<<lo<<" "<<hi); }
                }
            }
        }
        if(guessing)
        {
            humoto::Location c=loc(COPB),f=loc(STEPB); auto&gc=as[level[COPB]]; auto&gf=as[level[STEPB]];
            if(s.sameSampling()) for(U i=0;i<2*s.N;++i){ AT::Type w=have&&i+2<2*s.N?oc[i+2]:AT::INACTIVE; PBT_CHECK(gc[c.offset_+i]==w,"guessed activation of bound "<<i<<" on the centre of pressure is "<<gc[c.offset_+i]<<" instead of "<<w); }
            bool gained=!b.empty()&&(ob.empty()||b.back()>ob.back()),lost=!ob.empty()&&(b.empty()||b.front()>ob.front());
            for(U j=0;j<b.size();++j) for(int a=0;a<2;++a){ AT::Type w=AT::INACTIVE; if(fix) w=AT::EQUALITY; else if(have){ if(gained&&lost) continue; for(U i=0;i<ob.size();++i) if(ob[i]==b[j]) w=of[2*i+a]; } PBT_CHECK(gf[f.offset_+2*j+a]==w,"guessed activation of bound "<<a<<" on footstep "<<j<<" is "<<gf[f.offset_+2*j+a]<<" instead of "<<w); }
            for(int k=0;k<COPB;++k){ humoto::Location l=loc(k); for(U i=0;i<l.length_;++i) PBT_CHECK(as[level[k]][l.offset_+i]==AT::EQUALITY,"activation of an equality"); }
            // give back an active set
            humoto::ActiveSet act; op.initializeActiveSet(act); auto ty=[&]{ return g.pick(std::vector<AT::Type>{AT::INACTIVE,AT::LOWER_BOUND,AT::UPPER_BOUND}); }; oc.clear(); of.clear();
            for(int k=0;k<KINDS;++k){ humoto::Location l=loc(k); for(U i=0;i<l.length_;++i){ AT::Type y=k<COPB?AT::EQUALITY:ty(); act[level[k]][l.offset_+i]=y; if(k==COPB) oc.push_back(y); if(k==STEPB) of.push_back(y); } } op.processActiveSet(act); have=true; ob=b;
        }
        // continue
        VX cop=s.cops(g,H),fp=s.steps(g,H); Scenario::Motion m=s.simulate(H,cop,fp); s.advance(H,m); s.fsm.shiftTime(s.Ts); s.model.updateState(s.mpc.getNextModelState(s.solution(cop,fp),s.fsm,s.model)); s.c=s.model.getCState();
    }
    if(steps) g.tag("steps"); if(fix) g.tag("fixed steps"); g.nontrivial(steps||done>1);
}
// the tasks may be used for another walk, with other steps
PBT_PROP(guess_after_restart, 2000, 40000)
{
    Scenario s; s.genWalk(g,g.flip()); s.keepN=true; bool fix=g.chance(1,5); humoto::OptimizationProblem op; op.reset(1); humoto::TaskSharedPointer cb(new w4::TaskCoPBounds()),fb(new w4::TaskFootstepBounds(fix)); bool fst=g.flip(); op.pushTask(fst?cb:fb,0); op.pushTask(fst?fb:cb,0); std::vector<AT::Type> oc,of; int n=g.range(2,4); bool other=false; std::string sizes;
    for(int it=0;it<n;++it)
    {
        if(it) s.genWalk(g,g.flip()); Horizon H=s.horizon(); if(s.mpc.update(s.model,s.fsm,s.wp)!=humoto::ControlProblemStatus::OK) break; humoto::Solution sol; humoto::ActiveSet as; op.form(sol,as,s.model,s.mpc); PBT_CHECK(as.size()==1&&as[0].size()==2*(s.N+H.var.size()),"size of the guess");
        humoto::Location lc,lf; for(auto&q:op[0].tasks_) (q.ptr_.get()==cb.get()?lc:lf)=q.location_; PBT_CHECK(lc.length_==2*s.N&&lf.length_==2*H.var.size(),"number of constraints");
        for(U i=0;i<2*s.N;++i){ AT::Type w=it&&i+2<2*s.N?oc[i+2]:AT::INACTIVE; PBT_CHECK(as[0][lc.offset_+i]==w,"guessed activation of bound "<<i<<" on the centre of pressure"); }
        for(U j=0;j<lf.length_;j+=2){ AT::Type a=as[0][lf.offset_+j],b=as[0][lf.offset_+j+1]; bool from=fix?a==AT::EQUALITY&&b==a:a==AT::INACTIVE&&b==a; for(U i=0;!fix&&i<of.size();i+=2) from=from||(a==of[i]&&b==of[i+1]); PBT_CHECK(from,"guessed activation of the bounds on footstep "<<j/2<<" does not come from the earlier walk"); }
        humoto::ActiveSet act; op.initializeActiveSet(act); other=other||(it&&of.size()!=lf.length_); oc.clear(); of.clear(); sizes+=" "+std::to_string(H.var.size()); for(U i=0;i<lc.length_;++i){ oc.push_back(g.pick(std::vector<AT::Type>{AT::INACTIVE,AT::LOWER_BOUND,AT::UPPER_BOUND})); act[0][lc.offset_+i]=oc.back(); } for(U i=0;i<lf.length_;++i){ of.push_back(fix?AT::EQUALITY:g.pick(std::vector<AT::Type>{AT::INACTIVE,AT::LOWER_BOUND,AT::UPPER_BOUND})); act[0][lf.offset_+i]=of.back(); } op.processActiveSet(act);
    }
    g.note("footsteps",sizes); g.nontrivial(other);
}
PBT_MAIN
