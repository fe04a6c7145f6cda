// PBT-rule: a non-zero state or control, an interval of at least 1 ms
// PBT-assume: heights 0.1 to 3 m, intervals 1 ms to 2 s
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
namespace wk=humoto::walking; namespace rb=humoto::rigidbody; typedef wk::PointMassModel6z PM; typedef Eigen::Matrix<double,6,1> V6; typedef Eigen::Vector3d V3; typedef Eigen::Vector2d V2; typedef long double L;
// Exact motion of c'' = w^2 (c - z), z(t)=z0+v t, written with exponentials: e(t)=c-z satisfies e''=w^2 e
static V3 pend(const V3&x,double z0,double v,double w,double t)
{ L e0=(L)x(0)-z0,d0=(L)x(1)-v; L p=(e0+d0/w)/2,q=(e0-d0/w)/2; L E=std::exp((L)w*t),F=std::exp(-(L)w*t); L e=p*E+q*F,d=w*(p*E-q*F); return V3((double)(e+z0+(L)v*t),(double)(d+v),(double)((L)w*w*e)); }
static double val(pbt::Case&g){ return g.chance(1,6)?0:g.chance(1,4)?g.range(-3,3):g.real(-3,3); }
PBT_PROP(step, 40000, 2000000)
{
    double h=g.chance(1,4)?0.814:g.real(0.1,3),w=PM::getOmega(h); double T=g.chance(1,4)?0.1:g.chance(1,4)?g.real(0.001,0.02):g.real(0.02,2); g.note("h",h); g.note("T",T);
    PBT_CLOSE_TOL(w*w*h,9.8,1e-9,"omega^2 h is not the gravitational acceleration");
    V6 x; V2 z,u; for(int i=0;i<2;++i){ double c=val(g),v=val(g),zz=val(g); z(i)=zz; x(3*i)=c; x(3*i+1)=v; x(3*i+2)=w*w*(c-zz); u(i)=g.chance(1,4)?zz:val(g); } g.note("x",x.transpose()); g.note("u",u.transpose()); g.nontrivial(x.norm()>0||u.norm()>0);
    double amp=(1+x.cwiseAbs().maxCoeff()+u.cwiseAbs().maxCoeff())*std::exp(w*T)*(1+w*w)*(1+1/T); auto close=[&](double a,double b,const char*m){ PBT_CHECK(std::fabs(a-b)<=1e-11*amp,m<<": "<<a<<" instead of "<<b); };
    double Ts=g.chance(1,5)?T:g.chance(1,5)?0:T*g.unit();
    V6 n=PM::getA6(T,w)*x+PM::getB6(T,w)*u,s=PM::getA6(Ts,w,T)*x+PM::getB6(Ts,w,T)*u;
    for(int i=0;i<2;++i)
    {
        V3 xi=x.segment<3>(3*i); double v=(u(i)-z(i))/T; V3 want=pend(xi,z(i),v,w,T),mid=pend(xi,z(i),v,w,Ts); for(int k=0;k<3;++k){ close(n(3*i+k),want(k),"state after the step"); close(s(3*i+k),mid(k),"state within the step"); }
        V3 n3=PM::getA3(T,w)*xi+PM::getB3(T,w)*u(i),s3=PM::getA3(Ts,w,T)*xi+PM::getB3(Ts,w,T)*u(i); for(int k=0;k<3;++k){ close(n3(k),want(k),"state of one axis after the step"); close(s3(k),mid(k),"state of one axis within the step"); }
        close(n(3*i)-n(3*i+2)/(w*w),u(i),"the centre of pressure after the step is not the commanded one");
        double dz=(PM::getD3(T,w)*xi)(0)+PM::getE3(T)*u(i); close(dz,v,"centre of pressure velocity");
    }
    // D = position - h/g acceleration
    V2 cop=PM::getDdz6(h)*x; for(int i=0;i<2;++i) close(cop(i),z(i),"centre of pressure of a state"); V2 dz=PM::getD6(T,w)*x+PM::getE6(T,w)*u; for(int i=0;i<2;++i) close(dz(i),(u(i)-z(i))/T,"centre of pressure velocity");
    V2 cpv=PM::getDcpv6(w)*x; for(int i=0;i<2;++i) close(cpv(i),x(3*i+1)+x(3*i+2)/w,"capture point velocity");
    // conversions
    rb::PointMassState p=PM::convertCoMState(x,h); PBT_CHECK(p.position_==V3(x(0),x(3),h)&&p.velocity_==V3(x(1),x(4),0)&&p.acceleration_==V3(x(2),x(5),0),"conversion of the state"); PBT_CHECK(V6(PM::convertCoMState(p))==x,"conversion of the state back");
    rb::PointMassState e=PM::evaluate(Ts,T,h,x,u); V6 ex=PM::convertCoMState(e); for(int k=0;k<6;++k) close(ex(k),s(k),"evaluate()"); PBT_CHECK(e.position_(2)==h&&e.velocity_(2)==0&&e.acceleration_(2)==0,"the height is not kept");
    // two parts of the step with the intermediate centre of pressure
    double q=g.real(0.05,0.95)*T; V2 um=z+(u-z)*(q/T); V6 a=PM::getA6(q,w)*x+PM::getB6(q,w)*um,b=PM::getA6(T-q,w)*a+PM::getB6(T-q,w)*u; double am2=amp*(1+1/q+1/(T-q)); for(int k=0;k<6;++k) PBT_CHECK(std::fabs(b(k)-n(k))<=1e-11*am2,"two parts of a step: "<<b(k)<<" instead of "<<n(k));
    if(Ts==0) for(int k=0;k<6;++k) close(s(k),x(k),"the state at the beginning of the step"); if(Ts==T) for(int k=0;k<6;++k) close(s(k),n(k),"the state at the end of the step");
}
PBT_PROP(history, 5000, 200000)
{
    double h=g.real(0.2,2),w=PM::getOmega(h); V6 x; V2 z; for(int i=0;i<2;++i){ double c=g.real(-.2,.2); z(i)=g.real(-.2,.2); x(3*i)=c; x(3*i+1)=g.real(-.3,.3); x(3*i+2)=w*w*(c-z(i)); } V6 r=x; int n=g.range(1,10); double amp=1; g.nontrivial(n>2);
    for(int i=0;i<n;++i){ double T=g.chance(1,2)?0.1:g.real(0.01,0.3); V2 u(g.real(-.2,.2),g.real(-.2,.2)); rb::PointMassState s=PM::evaluate(T,T,h,x,u); x=PM::convertCoMState(s); for(int k=0;k<2;++k) r.segment<3>(3*k)=pend(r.segment<3>(3*k),z(k),(u(k)-z(k))/T,w,T); z=u; amp*=std::exp(w*T); amp=std::max(amp,std::exp(w*T)*(1+1/T)*(1+w*w)); for(int k=0;k<6;++k) PBT_CHECK(std::fabs(x(k)-r(k))<=1e-10*amp*(1+w*w)*(1+1/T),"state after "<<i+1<<" steps: "<<x(k)<<" instead of "<<r(k)); }
}
PBT_MAIN
