// PBT-rule: the horizon contains at least one variable step, or the walk was advanced before
// PBT-assume: horizons of at least two intervals | stance durations are multiples of the sampling time; transitional double supports last exactly their sampling time, which does not exceed the sampling time | the last stance is at least as long as the horizon | the feet are aligned in the initial double support | the turning increment is constant during a walk
#include "wpg_gen.h"
using namespace wg;
static void checkHorizon(const Scenario&s,const Horizon&H)
{
    const w4::PreviewHorizon&p=s.mpc.preview_horizon_; PBT_CHECK(p.intervals_.size()==s.N,"the horizon has "<<p.intervals_.size()<<" intervals instead of "<<s.N); U sum=0,want=0;
    for(U k=0;k<s.N;++k)
    {
        const w4::PreviewHorizonInterval&v=p.intervals_[k]; const Iv&r=H.iv[k]; PBT_CHECK(v.T_ms_==r.T,"interval "<<k<<" lasts "<<v.T_ms_<<" ms instead of "<<r.T); PBT_CLOSE_TOL(v.T_,r.T/1000.,1e-12,"duration of interval "<<k<<" in seconds"); sum+=v.T_ms_; want+=r.T; PBT_CHECK(sum==want,"times do not add up");
        PBT_CLOSE_TOL(v.com_height_,s.h,1e-12,"height of the mass"); PBT_CLOSE_TOL(v.omega_,s.w,1e-9,"frequency of the pendulum"); pbt::checkMat(v.cvel_ref_,r.vel,"reference velocity of interval "+std::to_string(k),1e-9,1);
        const w4::WalkState&q=p.getWalkState(k); PBT_CHECK(q.type_==r.type,"interval "<<k<<" belongs to a stance of type "<<(int)q.type_<<" instead of "<<(int)r.type); PBT_CHECK(std::fabs(q.theta_-r.theta)<1e-9,"orientation of interval "<<k<<": "<<q.theta_<<" instead of "<<r.theta); pbt::checkMat(p.getRotationMatrix(k),rot(r.theta),"rotation of interval "+std::to_string(k),1e-9,1); pbt::checkMat(p.getCoPBounds(k),s.copBounds(r),"bounds on the centre of pressure in interval "+std::to_string(k),1e-12,1);
        PBT_CHECK(v.state_index_<p.walk_states_.size(),"interval refers to a missing state"); if(k) PBT_CHECK(v.state_index_>=p.intervals_[k-1].state_index_,"intervals go back in the schedule");
    }
    PBT_CHECK(p.getNumberOfVariableSteps()==H.var.size(),"the horizon has "<<p.getNumberOfVariableSteps()<<" variable steps instead of "<<H.var.size());
    for(U j=0;j<H.var.size();++j){ PBT_CHECK((int)p.variable_steps_indices_[j]==H.var[j],"variable step "<<j<<" starts with interval "<<p.variable_steps_indices_[j]<<" instead of "<<H.var[j]); pbt::checkMat(p.getFootPositionBounds(j),s.stepBounds(H.iv[H.var[j]]),"bounds of variable step "+std::to_string(j),1e-12,1); }
}
PBT_PROP(horizon, 12000, 400000)
{
    Scenario s; s.gen(g); int n=g.range(1,10); bool steps=false; int done=0;
    for(int k=0;k<n;++k,++done)
    {
        if(g.chance(1,8)) s.velocities(g); Horizon H=s.horizon(); humoto::ControlProblemStatus::Status st=s.mpc.update(s.model,s.fsm,s.wp); PBT_CHECK((st==humoto::ControlProblemStatus::OK)==H.ok,"at "<<s.t<<" ms the controller reports status "<<(int)st<<", horizon is "<<(H.ok?"":"not ")<<"available"); if(!H.ok) break;
        checkHorizon(s,H); if(g.chance(1,6)){ s.mpc.update(s.model,s.fsm,s.wp); checkHorizon(s,H); } steps=steps||!H.var.empty();
        // advance the walk, possibly by several sub-samples of the same plan
        VX cop=s.cops(g,H),fp=s.steps(g,H); Scenario::Motion m=s.simulate(H,cop,fp); s.advance(H,m); s.fsm.shiftTime(s.Ts); s.model.updateState(s.mpc.getNextModelState(s.solution(cop,fp),s.fsm,s.model));
    }
    // then jump to a later moment: the schedule alone determines the horizon
    if(g.chance(1,3)){ U j=s.Ts*g.range(1,40); U off,i; Scenario&q=s; i=q.at(q.t+j,off); if(off<q.it[i].dur&&q.it[i].type!=ST::TDS&&(q.it[i].type==ST::DS?i!=0||q.last==0:true)){ q.t+=j; q.fsm.shiftTime(j); w4::ModelState ms; humoto::rigidbody::RigidBodyState l,r; q.L.yaw=q.R.yaw=g.real(-2,2); l.set(V3(q.L.p(0),q.L.p(1),0),V3(0,0,q.L.yaw)); r.set(V3(q.R.p(0),q.R.p(1),0),V3(0,0,q.R.yaw)); humoto::rigidbody::PointMassState com; com.set(V3(0.1,0.2,q.h)); ms.set(ST::DS,com,l,r); q.model.updateState(ms); ms.set(q.it[i].type,com,l,r); q.model.updateState(ms); Horizon H=q.horizon(); auto st=q.mpc.update(q.model,q.fsm,q.wp); PBT_CHECK((st==humoto::ControlProblemStatus::OK)==H.ok,"status after a jump"); if(H.ok) checkHorizon(q,H); } }
    g.nontrivial(steps||done>2);
}
PBT_MAIN
