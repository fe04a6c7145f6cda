// Generated scenarios for the mobile base controller (pepper_mpc) and an independent
// reference of the motion queue and of the motion of the two masses.
#pragma once
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/pepper_mpc.h"
#ifndef PBT_GLOBAL_LOGGER
#define PBT_GLOBAL_LOGGER
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
#endif
namespace pg {
namespace pm=humoto::pepper_mpc; typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3; typedef Eigen::Matrix2d M2; typedef Eigen::VectorXd VX; typedef Eigen::Matrix<double,6,1> V6; typedef std::size_t U; typedef pm::MotionParameters MP;
inline M2 rot(double a){ M2 m; m<<std::cos(a),-std::sin(a),std::sin(a),std::cos(a); return m; }
struct Robot : public pm::RobotParameters { void done(){ finalize(); } };
inline V3 jerkStep(const V3&x,double j,double t){ return V3(x(0)+x(1)*t+x(2)*t*t/2+j*t*t*t/6,x(1)+x(2)*t+j*t*t/2,x(2)+j*t); }
inline double jerkFor(const V3&x,double v,double T){ return 2*(v-x(1)-x(2)*T)/(T*T); }
// state of both masses: one row of [position velocity acceleration] per axis
struct State
{
    V6 base,body; double yaw,hb,hd,mb,md;
    V2 cop()const{ V2 c; for(int a=0;a<2;++a) c(a)=(mb*(base(3*a)-hb/9.8*base(3*a+2))+md*(body(3*a)-hd/9.8*body(3*a+2)))/(mb+md)-base(3*a); return c; } // with respect to the base
    V2 pos()const{ return V2(base(0),base(3)); }
    State step(const V2&v,const V2&j,double T,double t,double yawrate)const{ State s=*this; for(int a=0;a<2;++a){ V3 x=base.segment<3>(3*a); s.base.segment<3>(3*a)=jerkStep(x,jerkFor(x,v(a),T),t); s.body.segment<3>(3*a)=jerkStep(body.segment<3>(3*a),j(a),t); } s.yaw+=yawrate*t; return s; }
    V2 jerk(const V2&v,double T)const{ V2 r; for(int a=0;a<2;++a) r(a)=jerkFor(base.segment<3>(3*a),v(a),T); return r; }
    pm::ModelState make()const{ pm::ModelState s; humoto::rigidbody::RigidBodyState b; humoto::rigidbody::PointMassState d; b.setDefaults(); d.setDefaults(); for(int a=0;a<2;++a){ b.position_(a)=base(3*a); b.velocity_(a)=base(3*a+1); b.acceleration_(a)=base(3*a+2); d.position_(a)=body(3*a); d.velocity_(a)=body(3*a+1); d.acceleration_(a)=body(3*a+2); } b.position_(2)=hb; d.position_(2)=hd; b.rpy_(2)=yaw; s.set(b,d); s.base_mass_=mb; s.body_mass_=md; return s; }
};
inline State genState(pbt::Case&g){ State s; for(int a=0;a<2;++a){ s.base.segment<3>(3*a)<<g.real(-3,3),g.real(-1,1),g.real(-2,2); s.body.segment<3>(3*a)<<s.base(3*a)+g.real(-.1,.1),g.real(-1,1),g.real(-2,2); } s.yaw=g.chance(1,4)?0:g.real(-3,3); s.hb=g.chance(1,4)?0.125564931735602:g.real(0.02,0.5); s.hd=g.chance(1,4)?0.750001340031501:g.real(0.3,1.5); s.mb=g.chance(1,4)?16.34234:g.real(1,40); s.md=g.chance(1,4)?12.3389:g.real(1,40); return s; }
// comparison of a state returned by the library
inline void same(const pm::ModelState&m,const State&s,double tol,const std::string&what)
{
    for(int a=0;a<2;++a){ V3 b(m.base_state_.position_(a),m.base_state_.velocity_(a),m.base_state_.acceleration_(a)),d(m.body_state_.position_(a),m.body_state_.velocity_(a),m.body_state_.acceleration_(a)); pbt::checkMat(b,V3(s.base.segment<3>(3*a)),what+": base, axis "+std::to_string(a),tol,1); pbt::checkMat(d,V3(s.body.segment<3>(3*a)),what+": body, axis "+std::to_string(a),tol,1); }
    PBT_CLOSE_TOL(m.base_state_.position_(2),s.hb,1e-12,what<<": height of the base"); PBT_CLOSE_TOL(m.body_state_.position_(2),s.hd,1e-12,what<<": height of the body"); PBT_CHECK(m.base_state_.velocity_(2)==0&&m.body_state_.velocity_(2)==0&&m.base_state_.acceleration_(2)==0&&m.body_state_.acceleration_(2)==0,what<<": vertical motion"); PBT_CHECK(std::fabs(m.base_state_.rpy_(2)-s.yaw)<1e-9,what<<": orientation "<<m.base_state_.rpy_(2)<<" instead of "<<s.yaw); PBT_CHECK(m.base_mass_==s.mb&&m.body_mass_==s.md,what<<": masses "<<m.base_mass_<<" "<<m.body_mass_<<" instead of "<<s.mb<<" "<<s.md);
}
inline MP genMotion(pbt::Case&g,U T){ MP m; m.base_velocity_=V2(g.real(-.5,.5),g.real(-.5,.5)); m.base_position_=V2(g.real(-3,3),g.real(-3,3)); m.base_angular_velocity_=g.chance(1,4)?0:g.real(-1,1); m.motion_mode_=g.flip()?pm::MotionMode::MAINTAIN_POSITION:pm::MotionMode::MAINTAIN_VELOCITY; m.duration_ms_=g.chance(1,6)?MP::UNLIMITED_DURATION:g.chance(1,2)?(std::ptrdiff_t)(T*g.range(0,12)):(std::ptrdiff_t)g.range(0,1500); return m; }
// the motion that is active at the end of each interval of the horizon; false if the queue ends before the horizon
inline bool preview(const std::deque<MP>&q,U N,U T,std::vector<const MP*>&r){ r.clear(); for(U i=0;i<N;++i){ std::ptrdiff_t e=(i+1)*T,c=0; const MP*f=0; for(auto&m:q){ if(m.duration_ms_==MP::UNLIMITED_DURATION||(c+=m.duration_ms_)>=e){ f=&m; break; } } if(!f) return false; r.push_back(f); } return true; }
inline void shiftQueue(std::deque<MP>&q,std::ptrdiff_t t){ while(!q.empty()&&q.front().duration_ms_!=MP::UNLIMITED_DURATION){ if(q.front().duration_ms_>t){ q.front().duration_ms_-=t; break; } t-=q.front().duration_ms_; q.pop_front(); } }
struct Scenario
{
    U N,T,Ts; State s; Robot rp; pm::Model model; pm::MPCforMG mpc; pm::MPCParameters mp; std::deque<MP> q; double Td()const{ return T/1000.; }
    void gen(pbt::Case&g,bool fine=true)
    {
        if(g.chance(1,5))
        {   // the objects were used for another motion before
            genMotions(g,fine); g.tag("objects of an earlier motion"); g.note("second motion",""); int k=g.range(0,4);
            for(int i=0;i<k;++i){ if(mpc.update(q,model)!=humoto::ControlProblemStatus::OK) break; pm::ModelState ns=mpc.getNextModelState(solution(controls(g)),model); model.updateState(ns); mpc.shift(q); }
        }
        genMotions(g,fine);
    }
    void genMotions(pbt::Case&g,bool fine){ N=g.chance(1,5)?g.range(1,2):g.chance(1,40)?g.range(33,60):g.size(1,16,32); T=g.pick(std::vector<int>{100,100,50,20,200}); Ts=fine&&g.chance(1,2)?T/g.pick(std::vector<int>{1,2,5,10}):T; s=genState(g); rp.base_radius_=g.real(.1,1); rp.max_nominal_base_velocity_=g.real(.1,1); rp.max_nominal_base_acceleration_=g.real(.1,2); rp.max_base_velocity_=g.real(1,2); rp.max_base_acceleration_=g.real(1,3); rp.body_bounds_<<-g.real(0,.1),g.real(0,.1),-g.real(0,.1),g.real(0,.1); rp.done(); { int how=g.range(0,1); if(how==0){ model.setParameters(rp); model.updateState(s.make()); } else if(how==1){ model.updateState(s.make()); model.setParameters(rp); } } mp=pm::MPCParameters(N,T,Ts); if(g.flip()) mpc.setParameters(mp); else mpc=pm::MPCforMG(mp); q.clear(); int k=g.size(1,5,12); for(int i=0;i<k;++i) q.push_back(genMotion(g,T)); if(g.chance(2,3)) q.back().duration_ms_=MP::UNLIMITED_DURATION; g.note("N",N).note("T/Ts",std::to_string(T)+"/"+std::to_string(Ts)); for(auto&m:q) g.note("motion",m.duration_ms_); }
    VX controls(pbt::Case&g)const{ VX x(4*N); for(U i=0;i<4*N;++i) x(i)=g.real(-1,1)*(i<2*N?1:5); return x; }
    humoto::Solution solution(const VX&x)const{ humoto::Solution o; o.initialize(mpc.getSolutionStructure(),0.0); o.getSolutionPart(pm::BASE_VEL_VARIABLES_ID)=x.head(2*N); o.getSolutionPart(pm::BODY_JERK_VARIABLES_ID)=x.tail(2*N); return o; }
    // states at the ends of the intervals and jerks of the base
    void simulate(const std::vector<const MP*>&r,const VX&x,std::vector<State>&st,std::vector<V2>&je)const{ st.clear(); je.clear(); State c=s; for(U i=0;i<N;++i){ je.push_back(c.jerk(x.segment<2>(2*i),Td())); c=c.step(x.segment<2>(2*i),x.segment<2>(2*N+2*i),Td(),Td(),r[i]->base_angular_velocity_); st.push_back(c); } }
    double amp()const{ double t=Td(); return 1e3*(1+1/t)*(1+1/t)*std::pow(3.0,(double)N); } // the velocity controlled base oscillates with growing acceleration
    State at(const std::vector<const MP*>&r,const VX&x,const std::vector<State>&st,double t)const{ U i=0; while(i+1<N&&t>Td()){ t-=Td(); ++i; } State c=i?st[i-1]:s; return c.step(x.segment<2>(2*i),x.segment<2>(2*N+2*i),Td(),t,r[i]->base_angular_velocity_); }
};
}
