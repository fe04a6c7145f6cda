// PBT-rule: the walk was advanced at least twice, or the horizon contains a variable step
// PBT-assume: horizons of at least two intervals | stance durations are multiples of the sampling time; transitional double supports last exactly their sampling time, which does not exceed the sampling time | the last stance is at least as long as the horizon | the feet are aligned in the initial double support | footsteps respect their bounds
#include "wpg_gen.h"
using namespace wg;
static V6 cstate(const humoto::rigidbody::PointMassState&p){ V6 x; for(int a=0;a<2;++a) x.segment<3>(3*a)<<p.position_(a),p.velocity_(a),p.acceleration_(a); return x; }
static void flat(const Scenario&s,const humoto::rigidbody::PointMassState&p,const char*what){ PBT_CLOSE_TOL(p.position_(2),s.h,1e-12,what<<": height"); PBT_CHECK(p.velocity_(2)==0&&p.acceleration_(2)==0,what<<": the mass moves vertically"); }
static void foot(const humoto::rigidbody::RigidBodyState&f,const Foot&r,double tol,const std::string&what){ pbt::checkMat(V2(f.position_.head(2)),r.p,what+": position",tol,1); PBT_CLOSE_TOL(f.position_(2),r.z,1e-12,what<<": height"); PBT_CHECK(std::fabs(f.rpy_(0))+std::fabs(f.rpy_(1))<1e-12,what<<" is inclined"); PBT_CHECK(std::fabs(f.rpy_(2)-r.yaw)<1e-9,what<<": yaw "<<f.rpy_(2)<<" instead of "<<r.yaw); }
static void checkProfiles(const Scenario&s,const w4::MPCforWPG&q,const Horizon&H,const Scenario::Motion&m)
{
    double tol=1e-10*s.amp(); PBT_CHECK(q.cop_profile.size()==(int)(2*s.N)&&q.dcop_profile.size()==(int)(2*s.N)&&q.cstate_profile.size()==(int)(6*s.N)&&q.footpos_profile.size()==(int)(2*H.var.size()),"profiles have wrong sizes");
    for(U k=0;k<s.N;++k){ std::string n=" at the end of interval "+std::to_string(k); pbt::checkMat(V2(q.cop_profile.segment<2>(2*k)),m.cop[k],"centre of pressure"+n,1e-10,1); pbt::checkMat(V2(q.dcop_profile.segment<2>(2*k)),m.dcop[k],"velocity of the centre of pressure in interval "+std::to_string(k),tol,1); pbt::checkMat(V6(q.cstate_profile.segment<6>(6*k)),m.x[k],"centre of mass"+n,tol,1); }
    for(U j=0;j<H.var.size();++j) pbt::checkMat(V2(q.footpos_profile.segment<2>(2*j)),m.step[j],"footstep "+std::to_string(j),1e-10,1);
}
struct Prev { bool ok; Horizon H; Scenario::Motion m; VX cop,fp,x; std::vector<U> e,b; };
static std::vector<U> ends(const Horizon&H,U t){ std::vector<U> e; for(auto&v:H.iv) e.push_back(t+=v.T); return e; }
static std::vector<U> begins(const Horizon&H,const std::vector<U>&e,U t){ std::vector<U> b; for(int k:H.var) b.push_back(k?e[k-1]:t); return b; }
PBT_PROP(predictions, 9000, 250000)
{
    Scenario s; s.gen(g); int n=g.range(1,12),done=0; bool steps=false,compared=false; Prev P; P.ok=false;
    for(int it=0;it<n;++it,++done)
    {
        if(g.chance(1,10)) s.velocities(g);
        Horizon H=s.horizon(); humoto::ControlProblemStatus::Status st=s.mpc.update(s.model,s.fsm,s.wp); PBT_CHECK((st==humoto::ControlProblemStatus::OK)==H.ok,"status"); if(!H.ok) break; steps=steps||!H.var.empty();
        auto&mpc=s.mpc; pbt::checkMat(s.model.current_support_position_,s.support(),"position of the support",1e-9,1); pbt::checkMat(s.model.getCState(),s.c,"current state",1e-10*s.amp(),1);
        PBT_CHECK(pbt::throwsCleanly([&]{ mpc.getCoMState(s.model,0); })&&pbt::throwsCleanly([&]{ mpc.getFootLandingState(s.model); }),"predictions are available before a solution is given");
        VX cop=s.cops(g,H),fp=s.steps(g,H); std::vector<U> e=ends(H,s.t),b=begins(H,e,s.t); U common=0;
        if(P.ok&&g.chance(2,3)) // continue the preceding plan
        { bool all=true; for(U k=0;k<s.N&&all;++k){ bool f=false; for(U i=0;i<P.e.size();++i) if(P.e[i]==e[k]){ cop.segment<2>(2*k)=P.cop.segment<2>(2*i); f=true; } if(f) common=k+1; else all=false; } for(U j=0;j<b.size();++j) for(U i=0;i<P.b.size();++i) if(P.b[i]==b[j]) fp.segment<2>(2*j)=P.fp.segment<2>(2*i); }
        Scenario::Motion m=s.simulate(H,cop,fp); humoto::Solution sol=s.solution(cop,fp);
        // the next state
        ST::Type now; { U off,i=s.at(s.t,off); now=s.it[i].type; }
        Scenario before=s; int landed=s.advance(H,m); s.fsm.shiftTime(s.Ts); U off,i1=s.at(s.t,off); ST::Type want=s.it[i1].type; bool direct=g.flip(); if(!direct) mpc.parseSolution(sol); 
        w4::ModelState ns=direct?mpc.getNextModelState(sol,s.fsm,s.model):static_cast<const w4::MPCforWPG&>(mpc).getNextModelState(s.fsm,s.model);
        PBT_CHECK(pbt::throwsCleanly([&]{ mpc.getNextModelState(sol,s.fsm,s.model); }),"a solution can be given twice");
        checkProfiles(before,mpc,H,m); double tol=1e-10*before.amp();
        pbt::checkMat(cstate(ns.com_state_),s.c,"next state of the centre of mass",tol,1); flat(before,ns.com_state_,"next state"); PBT_CHECK(ns.stance_type_==want,"the next stance is "<<(int)ns.stance_type_<<" instead of "<<(int)want); if(i1+1<s.it.size()) PBT_CHECK(ns.next_stance_type_==s.it[i1+1].type,"the stance after the next one is "<<(int)ns.next_stance_type_<<" instead of "<<(int)s.it[i1+1].type);
        if(want==ST::LSS) PBT_CHECK(ns.feet_.getRight().position_.array().isNaN().all(),"the state of the swinging right foot is defined"); else foot(ns.feet_.getRight(),s.R,1e-9,"right foot of the next state");
        if(want==ST::RSS) PBT_CHECK(ns.feet_.getLeft().position_.array().isNaN().all(),"the state of the swinging left foot is defined"); else foot(ns.feet_.getLeft(),s.L,1e-9,"left foot of the next state");
        // landing of the swinging foot
        bool ss=now==ST::LSS||now==ST::RSS;
        if(!ss||H.var.empty()) PBT_CHECK(pbt::throwsCleanly([&]{ mpc.getFootLandingState(s.model); }),"landing of a foot is predicted "<<(ss?"beyond the horizon":"in a double support"));
        else { const Iv&v=H.iv[H.var[0]]; bool left=now==ST::RSS; Foot r; r.yaw=v.theta; r.z=left?before.R.z:before.L.z; r.p=v.type==ST::DS?V2(m.step[0]+rot(v.theta)*before.adsOffset(left)):m.step[0]; foot(mpc.getFootLandingState(s.model),r,1e-9,"landing foot"); }
        // states within the horizon
        U total=e.back()-before.t; for(int k=0;k<3;++k){ U tt=g.chance(1,3)?e[g.range(0,(int)s.N-1)]-before.t:(U)g.range(0,(int)total); humoto::rigidbody::PointMassState p=mpc.getCoMState(s.model,tt); pbt::checkMat(cstate(p),before.stateAt(H,m,tt),"centre of mass after "+std::to_string(tt)+" ms",tol,1); flat(before,p,"state within the horizon"); }
        U beyond=total+g.range(1,200); PBT_CHECK(pbt::throwsCleanly([&]{ mpc.getCoMState(s.model,beyond); }),"state "<<beyond<<" ms ahead is beyond the horizon of "<<total<<" ms");
        // the plan does not change when it is continued
        for(U k=0;k<common;++k){ compared=true; for(U i=0;i<P.e.size();++i) if(P.e[i]==e[k]){ std::string d=" predicted for "+std::to_string(e[k])+" ms changed after "+std::to_string(s.Ts)+" ms"; pbt::checkMat(V2(mpc.cop_profile.segment<2>(2*k)),P.m.cop[i],"centre of pressure"+d,1e-8,1); pbt::checkMat(V6(mpc.cstate_profile.segment<6>(6*k)),P.m.x[i],"centre of mass"+d,1e-8*before.amp(),1); } }
        for(U j=0;common&&j<b.size();++j) for(U i=0;i<P.b.size();++i) if(P.b[i]==b[j]) pbt::checkMat(V2(mpc.footpos_profile.segment<2>(2*j)),P.m.step[i],"footstep predicted for "+std::to_string(b[j])+" ms changed",1e-8,1);
        s.model.updateState(ns); PBT_CHECK(s.model.state_.stance_type_==want,"stance of the updated model"); pbt::checkMat(s.model.current_support_position_,s.support(),"support of the updated model",1e-9,1);
        if(want!=ST::RSS) foot(s.model.getFootState(LR::LEFT),s.L,1e-9,"left foot of the model"); if(want!=ST::LSS) foot(s.model.getFootState(LR::RIGHT),s.R,1e-9,"right foot of the model"); pbt::checkMat(cstate(s.model.getCoMState()),s.c,"state of the model",tol,1);
        // do not let the reference drift away from the model along the unstable motion
        s.c=s.model.getCState(); P.ok=true; P.H=H; P.m=m; P.cop=cop; P.fp=fp; P.e=e; P.b=b; (void)landed;
    }
    if(compared) g.tag("continued"); if(steps) g.tag("steps"); g.nontrivial(steps||done>1);
}
// the guess: centres of pressure move by one interval, steps that are already made disappear
PBT_PROP(guess, 4000, 100000)
{
    Scenario s; s.gen(g,false); int n=g.range(1,14); humoto::Solution old; VX ocop,ofp; std::vector<U> ob; bool have=false,some=false;
    for(int it=0;it<n;++it)
    {
        Horizon H=s.horizon(); if(s.mpc.update(s.model,s.fsm,s.wp)!=humoto::ControlProblemStatus::OK) break; std::vector<U> e=ends(H,s.t),b=begins(H,e,s.t);
        humoto::Solution guess; if(g.chance(1,4)){ guess.initialize(s.mpc.getSolutionStructure(),7.5); } s.mpc.guessSolution(guess,old); PBT_CHECK(guess.getNumberOfVariables()==2*(s.N+H.var.size()),"the guess has "<<guess.getNumberOfVariables()<<" variables");
        VX c=guess.getSolutionPart(w4::COP_VARIABLES_ID),f=guess.getSolutionPart(w4::FOOTPOS_VARIABLES_ID);
        if(!have) PBT_CHECK(guess.x_.isZero(0),"the guess without an earlier solution is not zero");
        else
        {
            VX w=VX::Zero(2*s.N); w.head(2*s.N-2)=ocop.tail(2*s.N-2); PBT_CHECK(c==w,"the guess of the centres of pressure is not the solution shifted by one interval");
            // steps: unambiguous when the horizon gained or lost a step, or has the same ones
            bool gained=!b.empty()&&(ob.empty()||b.back()>ob.back()),lost=!ob.empty()&&(b.empty()||b.front()>ob.front()); 
            if(!(gained&&lost)){ some=true; for(U j=0;j<b.size();++j){ V2 want=V2::Zero(); for(U i=0;i<ob.size();++i) if(ob[i]==b[j]) want=ofp.segment<2>(2*i); PBT_CHECK(V2(f.segment<2>(2*j))==want,"the guess of footstep "<<j<<" is "<<f.segment<2>(2*j).transpose()<<" instead of "<<want.transpose()); } }
        }
        VX cop=s.cops(g,H),fp=s.steps(g,H); Scenario::Motion m=s.simulate(H,cop,fp); s.advance(H,m); s.fsm.shiftTime(s.Ts); old=s.solution(cop,fp); s.model.updateState(s.mpc.getNextModelState(old,s.fsm,s.model)); s.c=s.model.getCState(); ocop=cop; ofp=fp; ob=b; have=true;
    }
    g.nontrivial(some);
}
// the state built from the parameters of a robot, and what updates do to the feet of the model
PBT_PROP(initial_state, 20000, 300000)
{
    struct P: wk::RobotFootParameters {}; P p; fg::Foot f=fg::gen(g); fg::load(p,f); double h=g.real(0.3,1.5); g.nontrivial(); const wk::RobotFootParameters&cp=p; w4::ModelState a(cp,h),b; int how=g.range(0,2); if(how==1){ humoto::rigidbody::RigidBodyState r; r.position_<<1,2,3; b.feet_.setLeft(r); b.feet_.setRight(r); b.stance_type_=ST::LSS; b.com_state_.velocity_<<1,1,1; b.set(p,h); } if(how==2){ f=fg::Foot{0.2,0.19,0.3,0.19,0.1372,0.058}; h=0.814; b.stance_type_=ST::LSS; b.com_state_.velocity_<<1,1,1; b.setDefaults(); }
    w4::ModelState&s=how?b:a; g.note("how",how); PBT_CHECK(s.stance_type_==ST::DS,"the initial stance is not a double support"); PBT_CHECK(s.com_state_.position_==V3(0,0,h)&&s.com_state_.velocity_.isZero(0)&&s.com_state_.acceleration_.isZero(0),"initial state of the centre of mass");
    for(int k=0;k<2;++k){ const humoto::rigidbody::RigidBodyState&q=k?s.feet_.getRight():s.feet_.getLeft(); pbt::checkMat(q.position_,V3(0,(k?-1:1)*f.feet_dist_default/2,0),std::string("initial position of the ")+(k?"right":"left")+" foot",1e-12,1); PBT_CHECK(q.velocity_.isZero(0)&&q.acceleration_.isZero(0)&&q.rpy_.isZero(0),"initial state of a foot"); }
    w4::Model m; m.updateState(s); PBT_CHECK(m.current_support_position_.isZero(1e-12),"initial support"); PBT_CLOSE(m.getCoMHeight(),h,"height");
    // stances that are not supports are refused
    ST::Type bad=g.pick(std::vector<ST::Type>{ST::TDS,ST::UNDEFINED}); PBT_CHECK(pbt::throwsCleanly([&]{ s.set(bad,s.com_state_,s.feet_.getLeft(),s.feet_.getRight()); }),"a state in stance "<<(int)bad<<" is accepted");
}
// the old solution may belong to another walk, with other steps and another horizon
PBT_PROP(guess_after_restart, 3000, 60000)
{
    Scenario s; s.genWalk(g,g.flip()); humoto::Solution old; VX ocop,ofp; int n=g.range(1,4);
    for(int it=0;it<n;++it){ Horizon H=s.horizon(); if(s.mpc.update(s.model,s.fsm,s.wp)!=humoto::ControlProblemStatus::OK) break; ocop=s.cops(g,H); ofp=s.steps(g,H); Scenario::Motion m=s.simulate(H,ocop,ofp); s.advance(H,m); s.fsm.shiftTime(s.Ts); old=s.solution(ocop,ofp); s.model.updateState(s.mpc.getNextModelState(old,s.fsm,s.model)); s.c=s.model.getCState(); }
    U oN=s.N; s.genWalk(g,g.flip()); Horizon H=s.horizon(); if(s.mpc.update(s.model,s.fsm,s.wp)!=humoto::ControlProblemStatus::OK||!ocop.size()) g.discard();
    humoto::Solution guess; s.mpc.guessSolution(guess,old); PBT_CHECK((U)guess.x_.size()==2*(s.N+H.var.size()),"the guess has "<<guess.x_.size()<<" variables"); VX c=guess.getSolutionPart(w4::COP_VARIABLES_ID),f=guess.getSolutionPart(w4::FOOTPOS_VARIABLES_ID);
    for(U i=0;i<s.N;++i){ V2 w=V2::Zero(); if(i+1<oN) w=ocop.segment<2>(2*i+2); bool last=i+1==s.N; V2 v=c.segment<2>(2*i); PBT_CHECK(v==w||(last&&v.isZero(0)),"the guess of the centre of pressure "<<i<<" is not taken from the solution of the earlier walk"); }
    for(U j=0;j<H.var.size();++j){ V2 v=f.segment<2>(2*j); bool from=v.isZero(0); for(int i=0;i<ofp.size();i+=2) from=from||v==V2(ofp.segment<2>(i)); PBT_CHECK(from,"the guess of footstep "<<j<<" does not come from the solution of the earlier walk"); }
    g.note("horizons",std::to_string(oN)+"/"+std::to_string(s.N)).note("footsteps",std::to_string(ofp.size()/2)+"/"+std::to_string(H.var.size())); g.nontrivial(oN!=s.N||ofp.size()!=f.size());
}
PBT_MAIN
