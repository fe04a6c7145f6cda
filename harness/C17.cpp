// PBT-rule: the end pose differs from the start pose and the time is strictly inside of one of the halves
// PBT-assume: the final height does not exceed the initial height plus the step height | time is normalised to the duration of the step
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
namespace rb=humoto::rigidbody; typedef Eigen::Vector3d V3; typedef rb::TrajectoryEvaluationType TE; typedef humoto::walking::Simple3DFootTrajectory Tr;
static V3 vec(pbt::Case&g,double r){ return V3(g.real(-r,r),g.real(-r,r),g.real(-r,r)); }
struct Setup { V3 a,b,da,db; double h,ta,tb,dta,dtb; bool theta; };
static Setup gen(pbt::Case&g,Tr&t)
{
    Setup s; s.a=vec(g,1); s.b=vec(g,1); s.da=s.db=V3::Zero(); s.ta=s.tb=s.dta=s.dtb=0; s.theta=false; s.h=g.real(0.01,0.4); s.b(2)=g.chance(1,3)?s.a(2):g.chance(1,5)?s.a(2)+s.h:s.a(2)+s.h-g.real(0,0.8); if(s.b(2)>s.a(2)+s.h) s.b(2)=s.a(2)+s.h;
    if(g.chance(1,3)){ Setup o; o.a=vec(g,1); o.da=vec(g,1); o.db=vec(g,1); t.initialize(o.a,o.da,V3(0,0,o.a(2)),o.db,0.5); } // an earlier use
    switch(g.range(0,2))
    {
        case 0: t.initialize(s.a,s.b,s.h); g.tag("zero"); break;
        case 1: s.da=vec(g,1); s.db=vec(g,1); t.initialize(s.a,s.da,s.b,s.db,s.h); g.tag("velocities"); break;
        default: { g.tag("states"); s.theta=true; if(g.flip()){ s.da=vec(g,1); s.db=vec(g,1); s.dta=g.real(-1,1); s.dtb=g.real(-1,1); } s.ta=g.real(-3,3); s.tb=g.real(-3,3); rb::RigidBodyState A,B; A.set(s.a,V3(g.real(-1,1),g.real(-1,1),s.ta),s.da,V3(g.real(-1,1),g.real(-1,1),s.dta),vec(g,1),vec(g,1)); B.set(s.b,V3(g.real(-1,1),g.real(-1,1),s.tb),s.db,V3(g.real(-1,1),g.real(-1,1),s.dtb),vec(g,1),vec(g,1)); t.initialize(A,B,s.h); }
    }
    return s;
}
static double hermite(double a,double da,double b,double db,double t,int d)
{ if(d==0) return (1+2*t)*(1-t)*(1-t)*a+t*(1-t)*(1-t)*da+t*t*(3-2*t)*b+t*t*(t-1)*db; if(d==1) return 6*t*(t-1)*a+(1-4*t+3*t*t)*da+6*t*(1-t)*b+(3*t*t-2*t)*db; return (12*t-6)*a+(6*t-4)*da+(6-12*t)*b+(6*t-2)*db; }
PBT_PROP(trajectory, 40000, 2000000)
{
    Tr tr; Setup s=gen(g,tr); double t=g.chance(1,8)?g.pick(std::vector<double>{0,0.5,1,0.25,0.75}):g.unit(); g.note("a",s.a.transpose()); g.note("b",s.b.transpose()); g.note("da",s.da.transpose()); g.note("db",s.db.transpose()); g.note("h",s.h); g.note("t",t); g.nontrivial((s.a-s.b).norm()>0.05&&t>0.02&&t<0.98&&std::fabs(t-0.5)>0.02);
    double tol=1e-9;
    auto P=[&](double x){ return tr.eval(x,TE::POSITION); }; auto Ve=[&](double x){ return tr.eval(x,TE::VELOCITY); }; auto Ac=[&](double x){ return tr.eval(x,TE::ACCELERATION); };
    pbt::checkMat(P(0),s.a,"position at the start",tol,1); pbt::checkMat(P(1),s.b,"position at the end",tol,1); pbt::checkMat(Ve(0),s.da,"velocity at the start",tol,1); pbt::checkMat(Ve(1),s.db,"velocity at the end",tol,1);
    PBT_CLOSE_TOL(tr.evalz(0.5,TE::POSITION),s.a(2)+s.h,tol,"height in the middle of the step"); PBT_CLOSE_TOL(tr.evalz(0.5,TE::VELOCITY),0.0,tol,"vertical velocity at the top");
    // continuity of position and velocity everywhere, in particular at the top
    for(double c:{0.5,t}){ double e=1e-7,lo=std::max(0.0,c-e),hi=std::min(1.0,c+e); PBT_CHECK((P(hi)-P(lo)).norm()<=1e-4&&(Ve(hi)-Ve(lo)).norm()<=1e-4,"the trajectory jumps at "<<c); }
    // horizontal motion: the cubic polynomial between the prescribed states
    for(int i=0;i<2;++i){ PBT_CLOSE_TOL(P(t)(i),hermite(s.a(i),s.da(i),s.b(i),s.db(i),t,0),tol,"horizontal position "<<i); PBT_CLOSE_TOL(Ve(t)(i),hermite(s.a(i),s.da(i),s.b(i),s.db(i),t,1),tol,"horizontal velocity "<<i); PBT_CLOSE_TOL(Ac(t)(i),hermite(s.a(i),s.da(i),s.b(i),s.db(i),t,2),tol,"horizontal acceleration "<<i); }
    // derivatives by finite differences that do not cross the top
    double e=1e-4,lo=t-e,hi=t+e; if(lo<0){ lo=0; hi=2*e; } if(hi>1){ hi=1; lo=1-2*e; } if(lo<0.5&&hi>0.5){ if(t<=0.5){ hi=0.5; lo=hi-2*e; } else { lo=0.5+1e-9; hi=lo+2*e; } } double m=(lo+hi)/2;
    pbt::checkMat((P(hi)-P(lo))/(hi-lo),Ve(m),"velocity is not the derivative of position",1e-5,1); pbt::checkMat((Ve(hi)-Ve(lo))/(hi-lo),Ac(m),"acceleration is not the derivative of velocity",1e-5,1);
    // without vertical velocities at the ends, the foot stays between its support heights and the step height
    if(s.da(2)==0&&s.db(2)==0){ double z=P(t)(2); PBT_CHECK(z<=s.a(2)+s.h+tol&&z>=std::min(s.a(2),s.b(2))-tol,"height "<<z<<" leaves the range of the step"); double q=g.unit(),r=g.unit(); if(q>r) std::swap(q,r); if(r<=0.5) PBT_CHECK(P(q)(2)<=P(r)(2)+tol,"the foot goes down while it should rise"); if(q>0.5) PBT_CHECK(P(q)(2)>=P(r)(2)-tol,"the foot rises while it should go down"); }
    PBT_CHECK(tr.evalx(t,TE::POSITION)==P(t)(0)&&tr.evaly(t,TE::VELOCITY)==Ve(t)(1)&&tr.evalz(t,TE::ACCELERATION)==Ac(t)(2),"coordinates of eval()");
    rb::RigidBodyState f; V3 r0=vec(g,1),w0=vec(g,1),q0=vec(g,1); f.rpy_=r0; f.angular_velocity_=w0; f.angular_acceleration_=q0; tr.eval(f,t); pbt::checkMat(f.position_,P(t),"position of the state",1e-12,1); pbt::checkMat(f.velocity_,Ve(t),"velocity of the state",1e-12,1); pbt::checkMat(f.acceleration_,Ac(t),"acceleration of the state",1e-12,1);
    if(s.theta){ const int Y=humoto::AngleIndex::YAW; PBT_CLOSE_TOL(f.rpy_(Y),hermite(s.ta,s.dta,s.tb,s.dtb,t,0),tol,"heading"); PBT_CLOSE_TOL(f.angular_velocity_(Y),hermite(s.ta,s.dta,s.tb,s.dtb,t,1),tol,"angular velocity"); PBT_CLOSE_TOL(f.angular_acceleration_(Y),hermite(s.ta,s.dta,s.tb,s.dtb,t,2),tol,"angular acceleration"); PBT_CLOSE_TOL(tr.evalTheta(t,TE::POSITION),f.rpy_(Y),tol,"heading"); }
    PBT_CHECK(f.rpy_(0)==r0(0)&&f.rpy_(1)==r0(1)&&f.angular_velocity_(0)==w0(0)&&f.angular_acceleration_(1)==q0(1),"roll or pitch are changed");
    double out=g.flip()?1+g.real(1e-6,1):-g.real(1e-6,1); PBT_CHECK(pbt::throwsCleanly([&]{ tr.eval(out,TE::POSITION); }),"time "<<out<<" is accepted"); PBT_CHECK(pbt::throwsCleanly([&]{ tr.evalz(out,TE::VELOCITY); }),"time "<<out<<" is accepted");
    V3 high=s.b; high(2)=s.a(2)+s.h+g.real(1e-6,1); PBT_CHECK(pbt::throwsCleanly([&]{ Tr x; x.initialize(s.a,high,s.h); })&&pbt::throwsCleanly([&]{ Tr x; x.initialize(s.a,s.da,high,s.db,s.h); }),"a landing above the step height is accepted");
}
PBT_MAIN
