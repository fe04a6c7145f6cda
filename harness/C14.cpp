// PBT-rule: a rotation by more than 0.1 rad about an axis that is not a coordinate axis, or angles within 1e-3 of a singularity
// PBT-assume: angles within +-20 rad, angular velocities within +-50 rad/s | the angle-axis error is examined for rotations less than half a turn apart (at half a turn its sine vanishes by definition)
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
namespace rb=humoto::rigidbody; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef rb::EulerAngles EA;
// ---- independent reference
static M3 rx(double a){ M3 m; m<<1,0,0, 0,std::cos(a),-std::sin(a), 0,std::sin(a),std::cos(a); return m; }
static M3 ry(double a){ M3 m; m<<std::cos(a),0,std::sin(a), 0,1,0, -std::sin(a),0,std::cos(a); return m; }
static M3 rz(double a){ M3 m; m<<std::cos(a),-std::sin(a),0, std::sin(a),std::cos(a),0, 0,0,1; return m; }
static M3 refMat(const V3&e,EA::Type t){ return t==EA::RPY?M3(rz(e(2))*ry(e(1))*rx(e(0))):M3(rx(e(0))*ry(e(1))*rz(e(2))); }
static M3 hat(const V3&w){ M3 m; m<<0,-w(2),w(1), w(2),0,-w(0), -w(1),w(0),0; return m; }
// exponential of a skew matrix by scaling and squaring of the Taylor series
static M3 expm(const M3&a){ int s=0; double n=a.norm(); while(n>0.25){ n/=2; ++s; } M3 x=a/std::ldexp(1.0,s),r=M3::Identity(),p=M3::Identity(); for(int k=1;k<16;++k){ p=p*x/k; r+=p; } for(int i=0;i<s;++i) r=r*r; return r; }
static double angle(pbt::Case&g){ const double pi=M_PI; switch(g.range(0,7)){ case 0: return 0; case 1: return g.range(-8,8)*pi/4; case 2: return g.range(-4,4)*pi/2+g.pick(std::vector<double>{1e-3,-1e-3,1e-5,-1e-5,1e-8,-1e-8}); case 3: return g.real(-20,20); case 4: return g.real(-1,1)*1e-6; default: return g.real(-pi,pi); } }
static V3 angles(pbt::Case&g){ V3 e; for(int i=0;i<3;++i) e(i)=angle(g); return e; }
static EA::Type type(pbt::Case&g){ return g.flip()?EA::RPY:EA::YPR; }
static V3 axis(pbt::Case&g){ V3 a(g.real(-1,1),g.real(-1,1),g.real(-1,1)); if(g.chance(1,5)) a=V3::Unit(g.range(0,2)); if(a.norm()<1e-3) a=V3(0,0,1); return a.normalized(); }
static M3 rot(pbt::Case&g){ return expm(hat(axis(g))*angle(g)); }
static void isRot(const M3&m,const char*w){ pbt::checkMat(m*m.transpose(),M3::Identity(),std::string(w)+": not orthonormal",1e-9,1); PBT_CLOSE_TOL(m.determinant(),1.0,1e-9,w<<": determinant"); }
PBT_PROP(conversions, 60000, 3000000)
{
    V3 e=angles(g); EA::Type t=type(g),u=type(g); g.note("angles",e.transpose()); g.note("from",(int)t); g.note("to",(int)u);
    g.nontrivial(M3(refMat(e,t)-M3::Identity()).norm()>0.2||std::fabs(std::cos(e(1)))<1e-3);
    M3 R=rb::convertEulerAnglesToMatrix(e,t); isRot(R,"rotation matrix"); pbt::checkMat(R,refMat(e,t),"rotation matrix of angles",1e-9,1);
    V3 b=rb::convertMatrixToEulerAngles(R,t); PBT_CHECK(b.allFinite(),"angles of a rotation matrix are not finite");
    pbt::checkMat(refMat(b,t),R,"angles of a rotation matrix give another rotation",1e-7,1);
    V3 c=rb::convertEulerAngles(e,t,u); pbt::checkMat(refMat(c,u),R,"conversion of angles changes the rotation",1e-7,1);
    V3 d=rb::convertEulerAngles(c,u,t); pbt::checkMat(refMat(d,t),R,"conversion of angles there and back changes the rotation",1e-7,1);
    M3 Q=rot(g); V3 q=rb::convertMatrixToEulerAngles(Q,u); pbt::checkMat(rb::convertEulerAnglesToMatrix(q,u),Q,"matrix to angles to matrix",1e-7,1);
    rb::RotaryState s; pbt::checkMat(s.getOrientationMatrix(),M3::Identity(),"orientation of the default state",1e-9,1);
    V3 w=angles(g),a=angles(g); if(g.flip()){ s.set(e,w,a); } else { rb::RigidBodyState r; V3 p=angles(g),v=angles(g),pa=angles(g); r.set(p,e,v,w,pa,a); PBT_CHECK(r.position_==p&&r.velocity_==v&&r.acceleration_==pa,"set() misplaces the linear motion"); V3 tr=angles(g); r.translate(tr); PBT_CHECK(r.position_==V3(p+tr)&&r.velocity_==v&&r.rpy_==e,"translate() changes something else than the position"); s=static_cast<const rb::RotaryState&>(r); }
    PBT_CHECK(s.rpy_==e&&s.angular_velocity_==w&&s.angular_acceleration_==a,"set() misplaces the rotation");
    pbt::checkMat(s.getOrientationMatrix(),refMat(e,EA::RPY),"orientation matrix of a state",1e-9,1);
}
PBT_PROP(unsupported_sequences, 200, 2000)
{
    V3 e=angles(g); M3 R=rot(g); EA::Type bad=static_cast<EA::Type>(g.pick(std::vector<int>{0,3})),t=type(g); g.nontrivial(true);
    PBT_CHECK(pbt::throwsCleanly([&]{ rb::convertMatrixToEulerAngles(R,bad); }),"unknown sequence accepted");
    PBT_CHECK(pbt::throwsCleanly([&]{ rb::convertEulerAnglesToMatrix(e,bad); }),"unknown sequence accepted");
    PBT_CHECK(pbt::throwsCleanly([&]{ rb::convertEulerAngles(e,bad,t); }),"unknown sequence accepted");
    PBT_CHECK(pbt::throwsCleanly([&]{ rb::convertEulerAngles(e,t,bad); }),"unknown sequence accepted");
    PBT_CHECK(pbt::throwsCleanly([&]{ rb::getEulerRatesToAngularVelocityTransform(e,bad); }),"unknown sequence accepted");
}
PBT_PROP(angle_rates, 40000, 2000000)
{
    V3 e=angles(g),r; for(int i=0;i<3;++i) r(i)=g.real(-3,3); EA::Type t=type(g); g.note("angles",e.transpose()); g.note("rates",r.transpose());
    g.nontrivial(M3(refMat(e,t)-M3::Identity()).norm()>0.2&&r.norm()>0.1);
    M3 T; bool ok=true; try { T=rb::getEulerRatesToAngularVelocityTransform(e,t); } catch(const std::exception&){ ok=false; }
    if(t==EA::RPY) PBT_CHECK(ok,"roll-pitch-yaw rates are not supported"); if(!ok) return; // other sequences may be unsupported, but not wrong
    // angular velocity of R(e(t)) in the world frame: Rdot R' (central differences)
    double h=1e-5; M3 D=(refMat(e+h*r,t)-refMat(e-h*r,t))/(2*h)*refMat(e,t).transpose(); V3 w(D(2,1)-D(1,2),D(0,2)-D(2,0),D(1,0)-D(0,1)); w/=2;
    pbt::checkMat(T*r,w,"angular velocity for given angle rates",1e-6,1);
}
PBT_PROP(rotation_error, 40000, 2000000)
{
    M3 c=rot(g); V3 a=axis(g); double th=g.chance(1,6)?0:g.chance(1,4)?g.real(-1e-4,1e-4):g.chance(1,8)?M_PI-g.real(1e-3,0.1):g.real(-3.1,3.1); M3 ref=expm(hat(a)*th)*c; g.note("angle",th); g.nontrivial(std::fabs(th)>0.1);
    M3 E=rb::getRotationError(c,ref); pbt::checkMat(E*c,ref,"the rotation error applied to the current orientation must give the reference",1e-9,1); isRot(E,"rotation error");
    V3 v=rb::getRotationErrorAngleAxis(c,ref); pbt::checkMat(v,a*std::sin(th),"angle-axis error",1e-9,1);
    if(std::fabs(th)>1e-6) PBT_CHECK(v.norm()>0,"the error of different orientations vanishes"); if(th==0) PBT_CHECK(v.norm()<1e-9,"the error of equal orientations does not vanish");
    // a small rotation along the error brings the orientation closer
    if(std::fabs(th)>1e-3){ double k=1e-2; M3 n=expm(hat(v)*k)*c; double before=(c-ref).norm(),after=(n-ref).norm(); PBT_CHECK(after<before,"moving along the error increases it"); }
}
PBT_PROP(integration, 40000, 2000000)
{
    M3 R=rot(g); V3 w; for(int i=0;i<3;++i) w(i)=g.chance(1,6)?0:g.chance(1,4)?g.real(-50,50):g.real(-2,2); if(g.chance(1,10)) w*=1e-9; double dt=g.chance(1,8)?0:g.chance(1,4)?g.real(-1,1):g.real(0,0.05); g.note("w",w.transpose()); g.note("dt",dt); g.nontrivial((w*dt).norm()>0.01);
    M3 exact=R*expm(hat(w)*dt);
    M3 A=rb::integrateAngularVelocityRodrigues(R,w,dt); isRot(A,"integrated orientation"); pbt::checkMat(A,exact,"exact integration of an angular velocity",1e-9,1);
    M3 B=rb::integrateAngularVelocity(R,w,dt); double x=(w*dt).norm(); PBT_CHECK((B-exact).norm()<=x*x*std::exp(x)+1e-12,"first-order integration differs from exact one by "<<(B-exact).norm()<<" for a rotation by "<<x);
    double tol=g.pick(std::vector<double>{1e-12,1e-6,0.5}); M3 C=rb::integrateAngularVelocityRodrigues(R,w,dt,tol); if(w.norm()>tol*(1+1e-9)) pbt::checkMat(C,exact,"exact integration above the tolerance",1e-9,1); else PBT_CHECK((C-exact).norm()<=2*tol*std::fabs(dt)+1e-9,"integration below the tolerance");
    // additivity
    double s=g.unit(); M3 D=rb::integrateAngularVelocityRodrigues(rb::integrateAngularVelocityRodrigues(R,w,s*dt),w,(1-s)*dt); pbt::checkMat(D,exact,"integration in two parts",1e-8,1);
    etools::Vector3 p(g.real(-3,3),g.real(-3,3),g.real(-3,3)); etools::CrossProductMatrix X(w); pbt::checkMat(X*p,V3(w(1)*p(2)-w(2)*p(1),w(2)*p(0)-w(0)*p(2),w(0)*p(1)-w(1)*p(0)),"cross product matrix",1e-12,1+w.norm()*p.norm());
}
PBT_MAIN
