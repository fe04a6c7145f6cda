// PBT-rule: a quantity other than zero, or a history of at least two operations
// PBT-assume: times below 10^12 ms | angles below 10^6 | the clock is a stand-in that returns generated times
// PBT-flags: -I{V}/lib/stubs
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/obstacle_avoidance.h"
#include <sys/time.h>
#include <unistd.h>
#include <sstream>
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
// the clock
static bool fakeClock=false; static long long nowUs=0;
extern "C" int gettimeofday(struct timeval*tv,void*)noexcept { if(fakeClock){ tv->tv_sec=nowUs/1000000; tv->tv_usec=nowUs%1000000; return 0; } struct timespec t; clock_gettime(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }
static long long amount(pbt::Case&g,long long big){ switch(g.range(0,4)){ case 0: return g.range(0,3); case 1: return g.range(0,1000); case 2: return g.range(0,100000); default: return (long long)(g.real(0,1)*big); } }
PBT_PROP(units,20000,400000)
{
    std::size_t n=amount(g,1000000000000LL); double s=humoto::convertMillisecondToSecond(n); g.note("ms",(double)n); g.nontrivial(n>0); PBT_CHECK(std::fabs(s-(long double)n/1000)<=1e-15*n,"n milliseconds in seconds: "<<s); PBT_CHECK(humoto::convertSecondToMillisecond(s)==n,n<<" ms become "<<humoto::convertSecondToMillisecond(s)<<" ms");
    double f=g.real(-.499,.499); std::size_t m=humoto::convertSecondToMillisecond((n+1+f)/1000.); if(n<1000000) PBT_CHECK(m==n+1,"seconds are rounded to the nearest millisecond"); double u=g.real(.001,.999); if(n<1000000) PBT_CHECK(humoto::truncateSecondToMillisecond((n+u)/1000.)==n,"seconds are truncated to the elapsed millisecond");
    double d=g.flip()?g.range(-720,720):g.real(-1e6,1e6),r=humoto::convertDegreesToRadians(d); PBT_CHECK(std::fabs(r-d/180.*M_PI)<=1e-12*(1+std::fabs(r)),d<<" degrees in radians: "<<r); PBT_CHECK(std::fabs(humoto::convertRadiansToDegrees(r)-d)<=1e-12*(1+std::fabs(d)),"degrees there and back"); PBT_CHECK(std::fabs(humoto::convertRadiansToDegrees(d)-d/M_PI*180)<=1e-12*(1+std::fabs(d)*60),"radians in degrees");
    // the corners of a square inscribed in a circle are on the circle
    double R=g.flip()?g.real(0,10):g.real(0,1e6),a=humoto::getEncircledSquareSide(R); PBT_CHECK(std::fabs(std::hypot(a/2,a/2)-R)<=1e-12*(1+R),"corner at "<<std::hypot(a/2,a/2)<<" of a circle of radius "<<R);
    double x=g.real(-10,10),t=g.chance(1,3)?1e-12:g.positive(1e-12,10),e=t*g.real(-3,3); double y=x+e; double D=std::fabs(x-y); PBT_CHECK(humoto::isApproximatelyEqual(x,y,t)==(D<t)&&humoto::isApproximatelyEqual(y,x,t)==(D<t),"approximate equality, difference "<<D<<", tolerance "<<t); if(t==1e-12) PBT_CHECK(humoto::isApproximatelyEqual(x,y)==(D<1e-12),"default tolerance"); PBT_CHECK(humoto::isApproximatelyEqual(x,x),"a number equals itself");
}
PBT_PROP(locations,20000,400000)
{
    std::size_t o=g.range(0,20),l=g.range(0,20),p=g.range(0,20),k=g.range(0,20),M=g.range(0,45); humoto::Location a(o,l),b,z; PBT_CHECK(z.offset_==0&&z.length_==0,"empty location"); b.set(p,k); if(g.chance(1,3)) b.set(p=o,k=l); g.note("at",(int)o).note("length",(int)l).note("limit",(int)M); g.nontrivial(l>0);
    PBT_CHECK(a.front()==o&&a.end()==o+l&&a.length_==l,"begin and end"); PBT_CHECK((a==b)==(o==p&&l==k)&&(a!=b)==!(o==p&&l==k),"equality"); PBT_CHECK(a.checkLength(M)==(o+l<=M),"fits into "<<M); humoto::Location h(~std::size_t(0)-g.range(0,5),g.range(6,20)); PBT_CHECK(!h.checkLength(M),"a location that wraps around");
}
PBT_PROP(sides,20000,400000)
{
    typedef humoto::LeftOrRight LR; typedef humoto::LeftRightContainer<std::vector<int> > C; C c,d; std::vector<int> m[2],n[2]; int k=g.range(1,8); g.nontrivial(k>1); auto side=[&](){ return g.flip()?LR::LEFT:LR::RIGHT; };
    for(int i=0;i<k;++i)
    {
        std::vector<int> v; for(int j=g.range(0,3);j>0;--j) v.push_back(g.range(-9,9)); bool second=g.flip(); C&x=second?d:c; C&y=second?c:d; std::vector<int>*p=second?n:m,*q=second?m:n; LR::Type t=side();
        switch(g.range(0,6)){ case 0: x.setLeft(v); p[0]=v; break; case 1: x.setRight(v); p[1]=v; break; case 2: x[t]=v; p[t==LR::RIGHT]=v; break; case 3: x.copyLeft(y); p[0]=q[0]; break; case 4: x.copyRight(y); p[1]=q[1]; break; case 5: x.getLeft()=v; p[0]=v; break; default: x.getRight()=v; p[1]=v; }
        const C&cc=c; const C&dd=d; PBT_CHECK(c.getLeft()==m[0]&&cc.getLeft()==m[0]&&c[LR::LEFT]==m[0]&&cc[LR::LEFT]==m[0]&&d.getLeft()==n[0]&&dd.getLeft()==n[0],"left"); PBT_CHECK(c.getRight()==m[1]&&cc.getRight()==m[1]&&c[LR::RIGHT]==m[1]&&cc[LR::RIGHT]==m[1]&&d.getRight()==n[1]&&dd.getRight()==n[1],"right");
    }
    PBT_CHECK(LR::invert(LR::LEFT)==LR::RIGHT&&LR::invert(LR::RIGHT)==LR::LEFT,"inversion"); LR::Type bad=(LR::Type)g.pick(std::vector<int>{0,3,3}); PBT_CHECK(pbt::throwsCleanly([&]{ LR::invert(bad); }),"inversion of no side"); PBT_CHECK(pbt::throwsCleanly([&]{ c[bad]; }),"access to no side"); const C&cc=c; PBT_CHECK(pbt::throwsCleanly([&]{ cc[bad]; }),"access to no side");
}
PBT_PROP(stopwatch,20000,400000)
{
    fakeClock=true; struct Off{ ~Off(){ fakeClock=false; } } off; nowUs=1700000000000000LL+g.range(0,2000000); long long t0=nowUs; humoto::Timer t; double shown=0; PBT_CHECK(t.get()==0,"a new timer shows "<<t.get()); int k=g.range(1,6); g.nontrivial(k>1);
    for(int i=0;i<k;++i)
    {
        nowUs+=amount(g,100000000000LL); 
        switch(g.range(0,2)){ case 0: t.start(); t0=nowUs; break; case 1: { double e=(nowUs-t0)/1e6,x=t.stop(); PBT_CHECK(std::fabs(x-e)<1e-9*(1+e),"after "<<e<<" s the timer returns "<<x); shown=e; break; } default: ; }
        PBT_CHECK(std::fabs(t.get()-shown)<1e-9*(1+shown),"the timer shows "<<t.get()<<" instead of "<<shown); std::ostringstream o; o.precision(3); o<<std::scientific; auto fl=o.flags(); o<<t; PBT_CHECK(o.precision()==3&&o.flags()==fl,"printing a timer changes the format of the stream"); std::string s=o.str(); size_t p=s.find("= "); PBT_CHECK(p!=std::string::npos&&std::fabs(atof(s.c_str()+p+2)-shown)<=1e-6,"printed as '"<<s<<"' instead of "<<shown);
    }
}
namespace rb=humoto::rigidbody;
struct Obstacle: public humoto::obstacle_avoidance::ObstacleBase { Obstacle(){} Obstacle(const etools::Vector3&p,const etools::Vector3&r):ObstacleBase(p,r){} void updateConstraints(const humoto::ControlProblem&,const humoto::Solution&,const double m){ A_.setConstant(1,2,m); ub_.setConstant(1,m); } void resetConstraints(const humoto::ControlProblem&){ A_.resize(0,0); ub_.resize(0); } };
struct Scratch { std::string n; Scratch(){ const char*s=getenv("PBT_SCRATCH"); n=std::string(s&&*s?s:".")+"/ob"+std::to_string(getpid()); } ~Scratch(){ ::unlink(n.c_str()); } };
PBT_PROP(obstacles,10000,100000)
{
    auto v=[&](){ etools::Vector3 x; for(int i=0;i<3;++i) x(i)=g.chance(1,6)?0:g.real(-5,5); return x; }; etools::Vector3 w[6]; for(auto&x:w) x.setZero(); std::unique_ptr<Obstacle> o; if(g.flip()){ w[0]=v(); w[3]=v(); o.reset(new Obstacle(w[0],w[3])); } else o.reset(new Obstacle); 
    auto check=[&](const rb::RigidBodyState&s){ const etools::Vector3*a[]={&s.position_,&s.velocity_,&s.acceleration_,&s.rpy_,&s.angular_velocity_,&s.angular_acceleration_}; for(int i=0;i<6;++i) pbt::checkMat(*a[i],w[i],"quantity "+std::to_string(i)+" of the obstacle",0,1); }; check(*o); PBT_CHECK(o->getA().size()==0&&o->getBounds().size()==0,"constraints of a new obstacle");
    int k=g.range(1,4); g.nontrivial(k>1); for(int j=0;j<k;++j){ if(g.flip()){ rb::RigidBodyState s; for(auto&x:w) x=v(); s.position_=w[0]; s.velocity_=w[1]; s.acceleration_=w[2]; s.rpy_=w[3]; s.angular_velocity_=w[4]; s.angular_acceleration_=w[5]; o->updateState(s); } else { for(auto&x:w) x.setZero(); w[0]=v(); w[3]=v(); o->updateState(w[0],w[3]); } check(*o); }
    if(g.chance(1,4)){ Scratch f; o->writeConfig<humoto::config::msgpack::Writer>(f.n); Obstacle c(v(),v()); c.readConfig<humoto::config::msgpack::Reader>(f.n); check(c); check(*o); g.tag("stored and read"); }
}
PBT_MAIN
