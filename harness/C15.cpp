// PBT-rule: a non-zero state or control and a sampling interval that is not 1
// PBT-assume: sampling intervals between 1e-3 and 10 s | sub-sampling time within the interval
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
namespace rb=humoto::rigidbody; typedef rb::TripleIntegrator TI; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
static double sampling(pbt::Case&g){ switch(g.range(0,4)){ case 0: return 1; case 1: return g.pick(std::vector<double>{0.1,0.005,0.02,0.25,2}); case 2: return g.real(0.001,0.05); default: return g.real(0.05,10); } }
static double val(pbt::Case&g){ return g.chance(1,6)?0:g.chance(1,4)?g.range(-5,5):g.real(-10,10); }
// constant jerk motion
static Eigen::Vector3d move(const Eigen::Vector3d&x,double j,double t){ return Eigen::Vector3d(x(0)+x(1)*t+x(2)*t*t/2+j*t*t*t/6,x(1)+x(2)*t+j*t*t/2,x(2)+j*t); }
template<std::size_t N> static void integrator(pbt::Case&g)
{
    double T=sampling(g); int mode=g.range(0,3); V x(3*N),u(N); for(int i=0;i<x.size();++i) x(i)=val(g); for(int i=0;i<u.size();++i) u(i)=val(g); g.note("T",T); g.note("mode",mode); g.note("x",x.transpose()); g.note("u",u.transpose()); g.tag(std::string("mode")+char('0'+mode)); g.nontrivial(T!=1&&(x.norm()>0||u.norm()>0));
    double Ts=g.chance(1,6)?T:g.chance(1,6)?0:T*g.unit();
    // the constant jerk that brings the controlled quantity to u after T
    V jerk(N); for(std::size_t i=0;i<N;++i){ double p=x(3*i),v=x(3*i+1),a=x(3*i+2); jerk(i)=mode==0?u(i):mode==1?(u(i)-a)/T:mode==2?(u(i)-v-a*T)*2/(T*T):(u(i)-p-v*T-a*T*T/2)*6/(T*T*T); }
    M A,B,As,Bs; switch(mode)
    {
        case 0: A=TI::getAJerk<N>(T); B=TI::getBJerk<N>(T); As=TI::getAJerk<N>(Ts); Bs=TI::getBJerk<N>(Ts); break;
        case 1: A=TI::getAAcc<N>(T); B=TI::getBAcc<N>(T); As=TI::getAsAcc<N>(T,Ts); Bs=TI::getBsAcc<N>(T,Ts); break;
        case 2: A=TI::getAVel<N>(T); B=TI::getBVel<N>(T); As=TI::getAsVel<N>(T,Ts); Bs=TI::getBsVel<N>(T,Ts); break;
        default: A=TI::getAPos<N>(T); B=TI::getBPos<N>(T); As=TI::getAsPos<N>(T,Ts); Bs=TI::getBsPos<N>(T,Ts); break;
    }
    PBT_CHECK(A.rows()==3*(int)N&&A.cols()==3*(int)N&&B.rows()==3*(int)N&&B.cols()==(int)N,"sizes of the integrator matrices");
    V next=A*x+B*u, sub=As*x+Bs*u;
    for(std::size_t i=0;i<N;++i)
    {
        Eigen::Vector3d s=x.segment<3>(3*i); double sc=1+s.cwiseAbs().maxCoeff()+std::fabs(u(i)); double amp=sc*(1+T+T*T+T*T*T)*(1+1/T+1/(T*T)+(mode==3?1/(T*T*T):0));
        Eigen::Vector3d want=move(s,jerk(i),T),mid=move(s,jerk(i),Ts);
        for(int k=0;k<3;++k){ PBT_CHECK(std::fabs(next(3*i+k)-want(k))<=1e-12*amp,"full step of integrator "<<i<<", component "<<k<<": "<<next(3*i+k)<<" instead of "<<want(k)); PBT_CHECK(std::fabs(sub(3*i+k)-mid(k))<=1e-12*amp,"sub-step of integrator "<<i<<", component "<<k<<" at "<<Ts<<": "<<sub(3*i+k)<<" instead of "<<mid(k)); }
        if(mode) PBT_CHECK(std::fabs(next(3*i+3-mode)-u(i))<=1e-12*amp,"the controlled quantity does not reach its commanded value");
        if(Ts==T) for(int k=0;k<3;++k) PBT_CHECK(std::fabs(sub(3*i+k)-next(3*i+k))<=1e-12*amp,"the sub-step at the end of the interval is not the full step");
        if(Ts==0) for(int k=0;k<3;++k) PBT_CHECK(std::fabs(sub(3*i+k)-s(k))<=1e-12*amp,"the sub-step at the beginning of the interval changes the state");
    }
    if(mode)
    {
        M D,E; switch(mode){ case 1: D=TI::getDAcc<N>(T); E=TI::getEAcc<N>(T); break; case 2: D=TI::getDVel<N>(T); E=TI::getEVel<N>(T); break; default: D=TI::getDPos<N>(T); E=TI::getEPos<N>(T); }
        PBT_CHECK(D.rows()==(int)N&&D.cols()==3*(int)N&&E.rows()==(int)N&&E.cols()==(int)N,"sizes of the output matrices"); V y=D*x+E*u;
        for(std::size_t i=0;i<N;++i){ double sc=1+x.segment<3>(3*i).cwiseAbs().maxCoeff()+std::fabs(u(i)); PBT_CHECK(std::fabs(y(i)-jerk(i))<=1e-11*sc*(1+1/T+1/(T*T)+1/(T*T*T)),"jerk "<<i<<": "<<y(i)<<" instead of "<<jerk(i)); }
    }
}
PBT_PROP(triple_integrator, 40000, 2000000){ switch(g.range(0,3)){ case 0: integrator<1>(g); break; case 1: integrator<2>(g); break; case 2: integrator<3>(g); break; default: integrator<6>(g); } }
PBT_PROP(triple_integrator_history, 5000, 200000)
{
    // mixing control types and sub-steps over a history: a step split at any point by a constant jerk equals the whole
    double T=sampling(g); Eigen::Vector3d x(val(g),val(g),val(g)); int n=g.range(1,6); g.note("T",T); g.nontrivial(n>2);
    for(int s=0;s<n;++s)
    {
        int mode=g.range(1,3); Eigen::Matrix<double,1,1> u; u(0)=val(g); double Ts=T*g.real(0.2,0.8); double amp=(1+x.cwiseAbs().maxCoeff()+std::fabs(u(0)))*(1+T+T*T+T*T*T)*(1+1/T+1/(T*T)+1/(T*T*T))*300;
        Eigen::Vector3d full,sub; if(mode==1){ full=TI::getAAcc<1>(T)*x+TI::getBAcc<1>(T)*u; sub=TI::getAsAcc<1>(T,Ts)*x+TI::getBsAcc<1>(T,Ts)*u; } else if(mode==2){ full=TI::getAVel<1>(T)*x+TI::getBVel<1>(T)*u; sub=TI::getAsVel<1>(T,Ts)*x+TI::getBsVel<1>(T,Ts)*u; } else { full=TI::getAPos<1>(T)*x+TI::getBPos<1>(T)*u; sub=TI::getAsPos<1>(T,Ts)*x+TI::getBsPos<1>(T,Ts)*u; }
        double R=T-Ts; Eigen::Vector3d rest; if(mode==1) rest=TI::getAAcc<1>(R)*sub+TI::getBAcc<1>(R)*u; else if(mode==2) rest=TI::getAVel<1>(R)*sub+TI::getBVel<1>(R)*u; else rest=TI::getAPos<1>(R)*sub+TI::getBPos<1>(R)*u;
        for(int k=0;k<3;++k) PBT_CHECK(std::fabs(rest(k)-full(k))<=1e-12*amp,"the remainder of a step leads elsewhere: component "<<k<<", "<<rest(k)<<" instead of "<<full(k));
        x=full; double m=x.cwiseAbs().maxCoeff(); if(m>1e4) x*=10/m;
    }
}
PBT_PROP(cubic_polynomial, 40000, 2000000)
{
    rb::CubicPolynomial1D p; bool der=g.flip(); for(int i=g.range(0,2);i>0;--i) p.initialize(val(g),val(g),val(g),val(g)); // earlier uses leave no trace
    double a=val(g),b=val(g),da=der?val(g):0,db=der?val(g):0; if(g.chance(1,12)){ p=rb::CubicPolynomial1D(); a=b=da=db=0; } else if(der) p.initialize(a,da,b,db); else p.initialize(a,b); g.note("a",a); g.note("da",da); g.note("b",b); g.note("db",db); g.nontrivial(a!=b||da!=0);
    double sc=1+std::fabs(a)+std::fabs(b)+std::fabs(da)+std::fabs(db);
    auto close=[&](double x,double y,const char*w,double tol=1e-12){ PBT_CHECK(std::fabs(x-y)<=tol*sc*10,w<<": "<<x<<" instead of "<<y); };
    close(p.getPosition(0),a,"position at the start"); close(p.getPosition(1),b,"position at the end"); close(p.getVelocity(0),da,"velocity at the start"); close(p.getVelocity(1),db,"velocity at the end");
    // Hermite form
    double t=g.chance(1,8)?g.range(0,1):g.unit(); double h00=(1+2*t)*(1-t)*(1-t),h10=t*(1-t)*(1-t),h01=t*t*(3-2*t),h11=t*t*(t-1); double pos=h00*a+h10*da+h01*b+h11*db,vel=6*t*(t-1)*a+(1-4*t+3*t*t)*da+6*t*(1-t)*b+(3*t*t-2*t)*db,acc=(12*t-6)*a+(6*t-4)*da+(6-12*t)*b+(6*t-2)*db,jerk=12*(a-b)+6*(da+db);
    g.note("t",t); close(p.getPosition(t),pos,"position"); close(p.getVelocity(t),vel,"velocity"); close(p.getAcceleration(t),acc,"acceleration"); close(p.getJerk(),jerk,"jerk");
    typedef rb::TrajectoryEvaluationType TE; close(p.eval(t,TE::POSITION),pos,"eval position"); close(p.eval(t,TE::VELOCITY),vel,"eval velocity"); close(p.eval(t,TE::ACCELERATION),acc,"eval acceleration");
    PBT_CHECK(pbt::throwsCleanly([&]{ p.eval(t,TE::UNDEFINED); }),"evaluation of an unknown quantity is accepted");
    int n=g.range(0,6); V tp(n); for(int i=0;i<n;++i) tp(i)=g.unit(); TE::Type w=g.pick(std::vector<TE::Type>{TE::POSITION,TE::VELOCITY,TE::ACCELERATION}); std::vector<double> r=p.eval(tp,w); PBT_CHECK((int)r.size()==n,"number of evaluated points"); for(int i=0;i<n;++i) close(r[i],p.eval(tp(i),w),"evaluation of several points");
    double out=g.flip()?1+g.real(1e-9,3):-g.real(1e-9,3); PBT_CHECK(pbt::throwsCleanly([&]{ p.getPosition(out); })&&pbt::throwsCleanly([&]{ p.getVelocity(out); })&&pbt::throwsCleanly([&]{ p.getAcceleration(out); }),"time "<<out<<" outside of the polynomial is accepted");
    if(n>1&&tp.maxCoeff()-tp.minCoeff()>1e-3){ double off=val(g),k=g.real(0.1,9); V q=tp*k; q.array()+=off; V s=rb::CubicPolynomial1D::scale(q); double lo=q.minCoeff(),hi=q.maxCoeff(); PBT_CHECK(s.size()==n,"number of scaled points"); for(int i=0;i<n;++i) PBT_CHECK(std::fabs(s(i)-(q(i)-lo)/(hi-lo))<1e-9&&s(i)>=0&&s(i)<=1,"scaled time "<<s(i)); }
}
PBT_MAIN
