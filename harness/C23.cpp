// PBT-rule: a moving state or a non-zero control
// PBT-assume: masses 1 to 40 kg, heights up to 1.5 m, steps of 10 ms to 1 s, centre of pressure with respect to the base as documented
#include "pepper_gen.h"
using namespace pg;
PBT_PROP(step, 30000, 1000000)
{
    State s=genState(g); pm::Model m; m.updateState(s.make()); int n=g.range(1,6); bool moving=false;
    for(int k=0;k<n;++k)
    {
        double T=g.chance(1,3)?0.1:g.real(0.01,1),amp=1e-10*(1+s.base.cwiseAbs().maxCoeff()+s.body.cwiseAbs().maxCoeff())*(1+1/T)*(1+1/T); V2 v(g.real(-1,1),g.real(-1,1)),j(g.real(-5,5),g.real(-5,5)); if(g.chance(1,5)){ v.setZero(); j.setZero(); } g.note("T",T).note("v",v.transpose()).note("j",j.transpose()); moving=moving||v.norm()+j.norm()>0;
        pbt::checkMat(m.getMPCBaseState(),s.base,"state of the base",1e-12,1); pbt::checkMat(m.getMPCBodyState(),s.body,"state of the body",1e-12,1); { VX b(12); b<<s.base,s.body; pbt::checkMat(m.getMPCState(),b,"state",1e-12,1); } same(s.make(),s,1e-12,"state"); { pm::ModelState q=s.make(); q.base_state_=m.getBaseState(); q.body_state_=m.getBodyState(); same(q,s,1e-12,"states of the base and the body"); } pbt::checkMat(m.current_base_position_,s.pos(),"position of the base",1e-12,1);
        PBT_CHECK(m.getBaseMass()==s.mb&&m.getBodyMass()==s.md,"masses of the model changed: "<<m.getBaseMass()<<" "<<m.getBodyMass()<<" instead of "<<s.mb<<" "<<s.md); PBT_CHECK(m.getBaseHeight()==s.hb&&m.getBodyHeight()==s.hd,"heights of the model changed"); PBT_CHECK(m.getBaseOrientation()==s.yaw&&m.getTheta()==s.yaw,"orientation of the model"); pbt::checkMat(m.getCoP(),s.cop(),"centre of pressure",1e-10*(1+amp),10);
        double yr=g.real(-1,1),Ts=g.chance(1,4)?T:g.chance(1,5)?0:T*g.unit(); State e=s.step(v,j,T,T,yr),in=s.step(v,j,T,Ts,yr);
        for(int a=0;a<2;++a) PBT_CHECK(std::fabs(e.base(3*a+1)-v(a))<1e-8,"reference");
        // one axis
        for(int a=0;a<2;++a){ V3 xb=s.base.segment<3>(3*a),xd=s.body.segment<3>(3*a); pbt::checkMat(V3(m.getAs3(T)*xb+m.getBs3(T)*v(a)),V3(e.base.segment<3>(3*a)),"one axis of the base",amp,1); pbt::checkMat(V3(m.getAd3(T)*xd+m.getBd3(T)*j(a)),V3(e.body.segment<3>(3*a)),"one axis of the body",amp,1); double je=(m.getDjs3(T)*xb)(0)+m.getEjs3(T)*v(a); PBT_CHECK(std::fabs(je-s.jerk(v,T)(a))<=10*amp,"jerk of the base "<<je<<" instead of "<<s.jerk(v,T)(a)); double c=(m.getDps3(s.hb,s.mb,s.md)*xb)(0)+(m.getDpd3(s.hd,s.mb,s.md)*xd)(0); PBT_CHECK(std::fabs(c-s.cop()(a))<=1e-9*(1+std::fabs(c)),"centre of pressure of one axis"); }
        VX jj=m.getDj6(T)*s.base+m.getEjs6(T)*v; pbt::checkMat(jj,VX(s.jerk(v,T)),"jerk of the base",10*amp,1);
        VX x12(12),u(4),w(12); x12<<s.base,s.body; u<<v,j; w<<in.base,in.body; pbt::checkMat(VX(m.getA12(T,Ts)*x12+m.getB12(T,Ts)*u),w,"state within the step",amp,1); pbt::checkMat(VX(m.evaluate(T,Ts,x12,v,j)),w,"evaluated state",amp,1);
        pm::ModelState o; if(g.flip()) o=pm::ModelState(1.0,2.0,3.0); m.getNextState(o,T,Ts,v,j,s.hb,s.hd,in.yaw); same(o,in,amp,"state within the step"); pbt::checkMat(m.getCoP(o),in.cop(),"centre of pressure of the state",10*amp,1);
        m.getNextState(o,T,T,v,j,s.hb,s.hd,e.yaw); same(o,e,amp,"next state"); m.updateState(o); s.base=m.getMPCBaseState(); s.body=m.getMPCBodyState(); s.yaw=e.yaw; if(g.chance(1,10)) m.setParameters(Robot());
    }
    g.nontrivial(moving);
}
PBT_PROP(construction, 10000, 200000)
{
    double hb=g.real(.01,1),hd=g.real(.01,2),off=g.real(-.1,.1),mb=g.real(1,40),md=g.real(1,40); g.note("heights",std::to_string(hb)+" "+std::to_string(hd)); g.nontrivial(true); pm::ModelState a(hb,hd,off); PBT_CHECK(a.base_state_.position_==V3(0,0,hb)&&a.body_state_.position_==V3(off,0,hd),"a state with given heights has heights "<<a.base_state_.position_(2)<<" "<<a.body_state_.position_(2)<<" instead of "<<hb<<" "<<hd); PBT_CHECK(a.base_state_.velocity_.isZero(0)&&a.body_state_.velocity_.isZero(0)&&a.base_state_.acceleration_.isZero(0)&&a.body_state_.acceleration_.isZero(0)&&a.base_state_.rpy_.isZero(0),"the state moves"); PBT_CHECK(a.base_mass_==16.34234&&a.body_mass_==12.3389,"default masses");
    V3 pb(g.real(-1,1),g.real(-1,1),hb),pd(g.real(-1,1),g.real(-1,1),hd); pm::ModelState b(mb,md,pb,pd); auto chk=[&](const pm::ModelState&s,const V3&x,const V3&y,double p,double q,double yaw){ PBT_CHECK(s.base_mass_==p&&s.body_mass_==q&&s.base_state_.position_==x&&s.body_state_.position_==y&&s.base_state_.rpy_(2)==yaw,"state differs from its parameters"); }; chk(b,pb,pd,mb,md,0); State r=genState(g); pm::ModelState c=r.make(); c.set(md,mb,pd,pb); chk(c,pd,pb,md,mb,0); PBT_CHECK(c.base_state_.velocity_.isZero(0)&&c.body_state_.acceleration_.isZero(0),"a newly set state moves"); c=r.make(); double yaw=g.real(-3,3); c.update(mb,md,pb,pd,yaw); chk(c,pb,pd,mb,md,yaw); PBT_CHECK(c.base_state_.velocity_(0)==r.base(1)&&c.body_state_.velocity_(1)==r.body(4),"an update of positions changed velocities");
    Robot p; p.base_radius_=g.real(.1,1); p.max_nominal_base_velocity_=g.real(.1,1); p.max_nominal_base_acceleration_=g.real(.1,1); p.done(); auto sq=[&](const M2&m,double v,const char*w){ M2 e; e<<-v,v,-v,v; e/=std::sqrt(2.); pbt::checkMat(m,e,w,1e-12,1); }; { const pm::RobotParameters&cp=p; pm::Model mm(cp),md0; PBT_CHECK(mm.robot_parameters_.base_radius_==p.base_radius_&&mm.robot_parameters_.getNominalBaseVelocityBounds()==p.getNominalBaseVelocityBounds()&&mm.robot_parameters_.getBodyBounds()==p.getBodyBounds(),"a model does not have the parameters it was constructed with"); PBT_CHECK(mm.current_base_position_==V2(mm.state_.base_state_.position_.head(2))&&md0.current_base_position_==V2(md0.state_.base_state_.position_.head(2)),"position of the base of a new model"); md0.setParameters(cp); PBT_CHECK(md0.robot_parameters_.base_radius_==p.base_radius_,"parameters given to a model"); } sq(p.getCoPBounds(),p.base_radius_,"square inside of the base"); sq(p.getNominalBaseVelocityBounds(),p.max_nominal_base_velocity_,"velocity bounds"); sq(p.getNominalBaseAccelerationBounds(),p.max_nominal_base_acceleration_,"acceleration bounds"); PBT_CHECK(p.getBodyBounds()==p.body_bounds_,"body bounds");
}
PBT_MAIN
