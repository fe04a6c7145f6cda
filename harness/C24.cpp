// PBT-rule: a queue of at least two motions, or at least two updates
// PBT-assume: durations of at least 0 ms or unlimited; an interval follows the motion that is active at its end
#include "pepper_gen.h"
using namespace pg;
static void checkHorizon(const Scenario&c,const std::vector<const MP*>&r)
{
    const pm::PreviewHorizon&p=c.mpc.preview_horizon_; PBT_CHECK(p.intervals_.size()==c.N&&p.getPreviewHorizonLength()==c.N,"the horizon has "<<p.intervals_.size()<<" intervals instead of "<<c.N); double yaw=c.s.yaw;
    for(U i=0;i<c.N;++i)
    {
        const pm::PreviewHorizonInterval&v=p.intervals_[i]; std::string n=" of interval "+std::to_string(i); PBT_CHECK(v.T_ms_==c.T,"duration"<<n); PBT_CLOSE_TOL(v.T_,c.Td(),1e-12,"duration in seconds"<<n); yaw+=r[i]->base_angular_velocity_*c.Td(); PBT_CHECK(std::fabs(v.theta_-yaw)<1e-9,"orientation"<<n<<": "<<v.theta_<<" instead of "<<yaw); pbt::checkMat(p.getRotationMatrix(i),rot(yaw),"rotation"+n,1e-9,1);
        pbt::checkMat(p.getBaseReferenceVelocity(i),V2(rot(yaw)*r[i]->base_velocity_),"reference velocity"+n,1e-9,1); PBT_CHECK(p.getBaseReferencePosition(i)==r[i]->base_position_,"reference position"<<n); auto sq=[&](const M2&m,double b,const char*w){ M2 e; e<<-b,b,-b,b; e/=std::sqrt(2.); pbt::checkMat(m,e,w+n,1e-12,1); }; sq(p.getCoPBounds(i),c.rp.base_radius_,"bounds on the centre of pressure"); sq(p.getNominalBaseVelocityBounds(i),c.rp.max_nominal_base_velocity_,"velocity bounds"); sq(p.getNominalBaseAccelerationBounds(i),c.rp.max_nominal_base_acceleration_,"acceleration bounds"); PBT_CHECK(p.getBodyBounds(i)==c.rp.body_bounds_,"body bounds"<<n); PBT_CHECK(v.base_height_==c.s.hb&&v.body_height_==c.s.hd&&v.base_mass_==c.s.mb&&v.body_mass_==c.s.md,"heights or masses"<<n);
    }
}
static bool equal(const std::deque<MP>&a,const std::deque<MP>&b){ if(a.size()!=b.size()) return false; for(U i=0;i<a.size();++i) if(a[i].duration_ms_!=b[i].duration_ms_||a[i].base_velocity_!=b[i].base_velocity_||a[i].base_position_!=b[i].base_position_||a[i].base_angular_velocity_!=b[i].base_angular_velocity_) return false; return true; }
PBT_PROP(queue, 20000, 500000)
{
    Scenario c; c.gen(g); int n=g.range(1,8),done=0; U most=c.q.size(); std::vector<double> old; std::vector<V2> oldv;
    for(int k=0;k<n;++k,++done)
    {
        std::vector<const MP*> r; bool ok=preview(c.q,c.N,c.T,r); std::deque<MP> before=c.q,model=c.q; std::ptrdiff_t sh=g.chance(1,3)?-1:g.chance(1,2)?(std::ptrdiff_t)(c.T*g.range(0,4)):(std::ptrdiff_t)g.range(0,700); bool one=g.flip(); auto st=one?(sh==-1&&g.flip()?c.mpc.updateAndShift(c.q,c.model):c.mpc.updateAndShift(c.q,c.model,sh)):c.mpc.update(c.q,c.model);
        PBT_CHECK((st==humoto::ControlProblemStatus::OK)==ok,"status "<<(int)st<<" although the queue "<<(ok?"covers":"does not cover")<<" the horizon"); r.clear(); preview(before,c.N,c.T,r); if(ok) checkHorizon(c,r); if(!one){ PBT_CHECK(equal(c.q,model),"an update changed the queue"); if(sh==-1&&g.flip()) c.mpc.shift(c.q); else c.mpc.shift(c.q,sh); } if(ok||!one) shiftQueue(model,sh==-1?(std::ptrdiff_t)c.T:sh); PBT_CHECK(equal(c.q,model),"queue after a shift by "<<sh); if(!ok) break;
        // what was previewed comes true when time is shifted by whole intervals
        std::ptrdiff_t s=sh==-1?(std::ptrdiff_t)c.T:sh; if(s%c.T==0){ U m=s/c.T; std::vector<const MP*> r2; if(preview(c.q,c.N,c.T,r2)) for(U i=m;i<c.N;++i) PBT_CHECK(r[i]->base_velocity_==r2[i-m]->base_velocity_,"model"); auto th=c.mpc.preview_horizon_; double yaw=m==0?c.s.yaw:m<=c.N?th.intervals_[m-1].theta_:c.s.yaw; if(m<=c.N){ c.s.yaw=yaw; c.model.updateState(c.s.make()); if(c.mpc.update(c.q,c.model)==humoto::ControlProblemStatus::OK) for(U i=m;i<c.N;++i){ const auto&a=th.intervals_[i]; const auto&b=c.mpc.preview_horizon_.intervals_[i-m]; PBT_CHECK(std::fabs(a.theta_-b.theta_)<1e-9&&(a.base_vel_ref_-b.base_vel_ref_).norm()<1e-9&&a.base_pos_ref_==b.base_pos_ref_,"interval "<<i<<" differs from what was previewed "<<m<<" intervals before"); } } }
        if(g.chance(1,4)){ c.s=genState(g); c.model.updateState(c.s.make()); } if(g.chance(1,6)) c.q.push_back(genMotion(g,c.T));
    }
    g.nontrivial(most>1||done>1);
}
PBT_PROP(single_motion, 10000, 200000)
{
    Scenario c; c.gen(g); MP m=genMotion(g,c.T); if(g.chance(1,4)) m.duration_ms_=c.N*c.T+g.range(-1,1); int n=g.range(1,6); g.note("duration",m.duration_ms_);
    for(int k=0;k<n;++k)
    {
        bool ok=m.duration_ms_==MP::UNLIMITED_DURATION||m.duration_ms_>=(std::ptrdiff_t)(c.N*c.T); std::ptrdiff_t d=m.duration_ms_,sh=g.chance(1,3)?-1:g.range(0,400),s=sh==-1?(std::ptrdiff_t)c.T:sh; MP used=m; bool one=g.flip(); auto st=one?c.mpc.updateAndShift(m,c.model,sh):c.mpc.update(m,c.model); PBT_CHECK((st==humoto::ControlProblemStatus::OK)==ok,"status"); if(ok){ std::vector<const MP*> r(c.N,&used); checkHorizon(c,r); } if(!one) c.mpc.shift(m,sh); std::ptrdiff_t w=d==MP::UNLIMITED_DURATION||(one&&!ok)?d:std::max<std::ptrdiff_t>(0,d-s); PBT_CHECK(m.duration_ms_==w,"remaining duration "<<m.duration_ms_<<" instead of "<<w); if(!ok) break; g.nontrivial(k>0);
    }
}
PBT_PROP(interval_of_time, 10000, 200000)
{
    Scenario c; c.gen(g); MP m=genMotion(g,c.T); m.duration_ms_=MP::UNLIMITED_DURATION; c.mpc.update(m,c.model); const auto&p=c.mpc.preview_horizon_; U t=g.range(0,(int)(c.N*c.T)); U o=t,i=p.getIntervalIndexByTimeOffset(o); PBT_CHECK(i<c.N&&o<=c.T&&i*c.T+o==t,"time "<<t<<" is in interval "<<i<<" with offset "<<o); double d=g.unit()*c.N*c.Td()*0.999999,od=d; i=p.getIntervalIndexByTimeOffset(od); PBT_CHECK(i<c.N&&od>=0&&od<=c.Td()&&std::fabs(i*c.Td()+od-d)<1e-9,"time "<<d<<" s is in interval "<<i<<" with offset "<<od); U b=c.N*c.T+g.range(1,500); PBT_CHECK(pbt::throwsCleanly([&]{ U q=b; (void)p.getIntervalIndexByTimeOffset(q); }),"time beyond the horizon accepted"); double bd=b/1000.; PBT_CHECK(pbt::throwsCleanly([&]{ double q=bd; (void)p.getIntervalIndexByTimeOffset(q); }),"time beyond the horizon accepted"); g.nontrivial(c.N>1);
}
PBT_MAIN
