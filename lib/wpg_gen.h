// Generated walking scenarios for the wpg04 module and an independent reference of
// the stance schedule, the preview horizon and the motion for a given solution.
#pragma once
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#ifndef PBT_GLOBAL_LOGGER
#define PBT_GLOBAL_LOGGER
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
#endif
#include "foot_gen.h"
namespace wg {
namespace w4=humoto::wpg04; namespace wk=humoto::walking; typedef wk::StanceType ST; typedef humoto::LeftOrRight LR;
typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3; typedef Eigen::Matrix2d M2; typedef Eigen::VectorXd VX; typedef Eigen::Matrix<double,6,1> V6; typedef std::size_t U;
inline M2 rot(double a){ M2 m; m<<std::cos(a),-std::sin(a),std::sin(a),std::cos(a); return m; }
struct FootParameters: humoto::walking::RobotFootParameters {};
struct Item { ST::Type type,prev; U dur; bool first; };   // prev: the previous stance that is not transitional
struct Foot { V2 p; double z,yaw; };
struct Iv { U T; bool tds; ST::Type type,prev; bool first; double theta; V2 vel; int step; }; // step: number of variable steps made up to this interval
struct Horizon { bool ok; std::vector<Iv> iv; std::vector<int> var; std::vector<M2> stepR; };
// pendulum with linearly moving centre of pressure
inline V3 pend(const V3&x,double z0,double v,double w,double t){ double e0=x(0)-z0,d0=x(1)-v,p=(e0+d0/w)/2,q=(e0-d0/w)/2,E=std::exp(w*t),F=std::exp(-w*t),e=p*E+q*F,d=w*(p*E-q*F); return V3(e+z0+v*t,d+v,w*w*e); }
struct Scenario
{
    bool keepN; U N,T,Ts,tds; std::vector<Item> it; U last; w4::WalkParameters wp; fg::Foot foot; double h,w,inc; U t; Foot L,R; V6 c; w4::Model model; wk::StanceFiniteStateMachine fsm; w4::MPCforWPG mpc; w4::MPCParameters mp; V2 vel,vel1,velN; ST::Type firstType;
    Scenario():keepN(false),N(0),T(0),Ts(0),tds(0),last(0),h(0),w(0),inc(0),t(0),firstType(ST::DS){}
    U at(U tt,U&off)const{ U i=0; for(;i+1<it.size()&&tt>=it[i].dur;++i) tt-=it[i].dur; off=tt; return i; }
    V2 adsOffset(bool left)const{ return V2(0,(left?1:-1)*foot.feet_dist_default/2); }
    bool sameSampling()const{ return T==Ts&&tds==T; }
    void gen(pbt::Case&g,bool fine=true)
    {
        if(g.chance(1,5))
        {   // the objects were used for another walk before
            genWalk(g,fine); g.tag("objects of an earlier walk"); int k=g.range(0,4); for(int i=0;i<k;++i){ if(mpc.update(model,fsm,wp)!=humoto::ControlProblemStatus::OK) break; fsm.shiftTime(Ts); humoto::Solution sol; sol.initialize(mpc.getSolutionStructure()); sol.x_.setConstant(g.real(-1,1)); w4::ModelState ns=mpc.getNextModelState(sol,fsm,model); model.updateState(ns); }
            g.note("second walk","");
        }
        genWalk(g,fine);
    }
    void genWalk(pbt::Case&g,bool fine=true)
    {
        if(!keepN) N=g.chance(1,5)?g.range(2,3):g.chance(1,40)?g.range(37,60):g.size(2,16,36); T=g.pick(std::vector<int>{100,100,60,40}); Ts=T; tds=T; if(fine&&g.chance(1,2)){ Ts=T/g.pick(std::vector<int>{1,2,4,5}); tds=Ts*(1+g.range(0,(int)(T/Ts)-1)); }
        // schedule
        firstType=g.chance(1,5)?(g.flip()?ST::LSS:ST::RSS):ST::DS; bool left=g.flip(); U n=g.chance(1,8)?0:g.size(2,5,10); auto d=[&](int m){ return T*(U)g.range(1,m); }; U d1=d(4),dss=d(g.chance(1,3)?2:6),dl=N*T+T*(U)g.range(0,3); if(n==0&&firstType==ST::DS) d1=N*T+T*(U)g.range(0,3);
        wp.first_stance_=firstType; wp.first_ss_type_=left?ST::LSS:ST::RSS; wp.num_steps_=n; wp.first_stance_duration_ms_=d1; wp.ss_duration_ms_=dss; wp.tds_duration_ms_=tds; wp.last_stance_duration_ms_=dl;
        it.clear(); ST::Type cur=firstType,foot_=firstType==ST::DS?(left?ST::RSS:ST::LSS):firstType,prev=ST::UNDEFINED; it.push_back(Item{cur,prev,d1,true}); prev=cur;
        if(!(n==0&&firstType==ST::DS)){ for(U i=0;i<n;++i){ it.push_back(Item{ST::TDS,prev,tds,false}); foot_=foot_==ST::LSS?ST::RSS:ST::LSS; it.push_back(Item{foot_,prev,dss,false}); prev=foot_; } it.push_back(Item{ST::TDS,prev,tds,false}); it.push_back(Item{ST::DS,prev,dl,false}); } last=it.size()-1;
        // references, robot, state
        velocities(g); inc=g.chance(1,3)?0:g.real(-0.4,0.4); wp.theta_increment_=inc; foot=fg::gen(g); if(g.flip()) fg::load(model,foot); else { FootParameters fp; fg::load(fp,foot); model.setFootParameters(fp); } h=g.chance(1,3)?0.814:g.real(0.3,1.5); w=std::sqrt(9.8/h);
        double yaw=g.chance(1,3)?0:g.real(-3,3); V2 ads(g.real(-2,2),g.real(-2,2)); double z=g.chance(1,2)?0:g.real(-.1,.1); L.yaw=R.yaw=yaw; L.z=R.z=z; L.p=ads+rot(yaw)*adsOffset(true); R.p=ads+rot(yaw)*adsOffset(false);
        humoto::rigidbody::PointMassState com; V2 cp=ads+V2(g.real(-.1,.1),g.real(-.1,.1)),cv(g.real(-.3,.3),g.real(-.3,.3)),ca(g.real(-1,1),g.real(-1,1)); com.set(V3(cp(0),cp(1),h),V3(cv(0),cv(1),0),V3(ca(0),ca(1),0)); c<<cp(0),cv(0),ca(0),cp(1),cv(1),ca(1);
        humoto::rigidbody::RigidBodyState l,r; l.set(V3(L.p(0),L.p(1),z),V3(0,0,yaw)); r.set(V3(R.p(0),R.p(1),z),V3(0,0,yaw)); w4::ModelState s; s.set(firstType,com,l,r); model.updateState(s);
        if(firstType==ST::LSS){ auto q=model.getFootState(LR::RIGHT); R.p=q.position_.head(2); R.z=q.position_(2); R.yaw=q.rpy_(2); } if(firstType==ST::RSS){ auto q=model.getFootState(LR::LEFT); L.p=q.position_.head(2); L.z=q.position_(2); L.yaw=q.rpy_(2); } // the state of a swinging foot is not used
        if(g.flip()) fsm.setParameters(wp); else fsm=wk::StanceFiniteStateMachine(wp); mp=w4::MPCParameters(N,T,Ts,tds); if(g.flip()) mpc.setParameters(mp); else mpc=w4::MPCforWPG(mp); t=0;
        g.note("N",N).note("T/Ts/tds",std::to_string(T)+"/"+std::to_string(Ts)+"/"+std::to_string(tds)).note("first",(int)firstType).note("left_first",left).note("steps",n).note("first/ss/last duration",std::to_string(d1)+"/"+std::to_string(dss)+"/"+std::to_string(dl)).note("theta_increment",inc);
    }
    void velocities(pbt::Case&g){ vel=V2(g.real(-.4,.4),g.real(-.4,.4)); vel1=V2(g.real(-.4,.4),g.real(-.4,.4)); velN=g.flip()?V2(0,0):V2(g.real(-.4,.4),g.real(-.4,.4)); wp.com_velocity_=vel; wp.first_stance_com_velocity_=vel1; wp.last_stance_com_velocity_=velN; }
    // the horizon that starts now
    Horizon horizon()const
    {
        Horizon H; U off,i=at(t,off); H.ok=!(i>=last&&it[i].dur-off<N*T); if(!H.ok) return H; double l=L.yaw,r=R.yaw,ds=(l+r)/2; int step=0;
        auto turn=[&](const Item&tdsItem,const Item&next){ if(next.type==ST::DS) ds=tdsItem.prev==ST::LSS?l:r; else if(tdsItem.prev!=ST::DS){ if(next.type==ST::RSS) r=l+inc; else l=r+inc; } };
        auto theta=[&](ST::Type y){ return y==ST::LSS?l:y==ST::RSS?r:ds; }; auto ref=[&](const Item&x){ V2 v=x.type==ST::DS?(x.first?vel1:velN):vel; return V2(rot(theta(x.type))*v); };
        auto push=[&](U T_,bool td,const Item&x){ Iv v; v.T=T_; v.tds=td; v.type=x.type; v.prev=x.prev; v.first=x.first; v.theta=theta(x.type); v.vel=ref(x); v.step=step; H.iv.push_back(v); };
        U left=std::min(it[i].dur-off,N*T); bool begin=true; // a stance that lasts longer than the horizon is sampled from now on
        while(H.iv.size()<N)
        {
            if(it[i].type==ST::TDS)
            {
                if(!begin){ H.stepR.push_back(rot(theta(it[i-1].type))); H.var.push_back(H.iv.size()); ++step; }
                turn(it[i],it[i+1]); push(left,true,it[i+1]); ++i; left=it[i].dur; begin=false;
            }
            else
            {
                while(left>0&&H.iv.size()<N){ U q=left%T?left%T:T; push(q,false,it[i]); left-=q; } ++i; begin=false; if(i<it.size()) left=it[i].dur;
            }
        }
        return H;
    }
    M2 copBounds(const Iv&v)const{ double fl=foot.foot_length/2,fw=v.type==ST::DS?(foot.foot_width+foot.feet_dist_default)/2:foot.foot_width/2; M2 m; m<<-fl,fl,-fw,fw; return m; }
    // bounds of a step on a support: relative to the preceding support
    M2 stepBounds(const Iv&v)const
    { M2 m; bool left=v.type==ST::LSS||(v.type==ST::DS&&v.prev==ST::RSS); double s=left?1:-1,hf=s*foot.feet_dist_default/2; if(v.type!=ST::DS&&v.prev!=ST::DS) m<<-foot.max_step_len,foot.max_step_len,left?foot.min_feet_dist:-foot.max_feet_dist,left?foot.max_feet_dist:-foot.min_feet_dist; else m<<0,0,hf,hf; return m; }
    V2 support()const{ U off,i=at(t,off); ST::Type y=it[i].type==ST::TDS?it[i+1].type:it[i].type; return y==ST::LSS?L.p:y==ST::RSS?R.p:V2((L.p+R.p)/2); }
    struct Motion { std::vector<V2> cop,dcop,step; std::vector<V6> x; };
    Motion simulate(const Horizon&H,const VX&cop,const VX&fp)const
    {
        Motion m; V2 s=support(); for(U j=0;j<H.var.size();++j){ s+=H.stepR[j]*fp.segment<2>(2*j); m.step.push_back(s); } V2 z(c(0)-c(2)/(w*w),c(3)-c(5)/(w*w)); V6 x=c;
        for(U k=0;k<N;++k){ V2 p=H.iv[k].step?m.step[H.iv[k].step-1]:support(); V2 e=p+rot(H.iv[k].theta)*cop.segment<2>(2*k); double Tk=H.iv[k].T/1000.; for(int a=0;a<2;++a) x.segment<3>(3*a)=pend(x.segment<3>(3*a),z(a),(e(a)-z(a))/Tk,w,Tk); m.cop.push_back(e); m.dcop.push_back((e-z)/Tk); m.x.push_back(x); z=e; }
        return m;
    }
    // state after time tt (ms) of the motion
    V6 stateAt(const Horizon&H,const Motion&m,U tt)const{ U k=0; while(k+1<N&&tt>H.iv[k].T){ tt-=H.iv[k].T; ++k; } V6 x=k?m.x[k-1]:c; V2 z=k?m.cop[k-1]:V2(c(0)-c(2)/(w*w),c(3)-c(5)/(w*w)),v=m.dcop[k]; for(int a=0;a<2;++a) x.segment<3>(3*a)=pend(x.segment<3>(3*a),z(a),v(a),w,tt/1000.); return x; }
    double amp()const{ return std::exp(w*N*T/1000.)*(1+w*w)*(1+c.cwiseAbs().maxCoeff()+1000./(Ts)); }
    // a solution inside of the bounds: fixed steps take their only value
    VX steps(pbt::Case&g,const Horizon&H)const{ VX f(2*H.var.size()); for(U j=0;j<H.var.size();++j){ M2 b=stepBounds(H.iv[H.var[j]]); for(int a=0;a<2;++a) f(2*j+a)=b(a,0)==b(a,1)?b(a,0):b(a,0)+(b(a,1)-b(a,0))*g.unit(); } return f; }
    VX cops(pbt::Case&g,const Horizon&H)const{ VX f(2*N); for(U k=0;k<N;++k){ M2 b=copBounds(H.iv[k]); for(int a=0;a<2;++a) f(2*k+a)=b(a,0)+(b(a,1)-b(a,0))*g.unit(); } return f; }
    humoto::Solution solution(const VX&cop,const VX&fp)const{ humoto::Solution s; s.initialize(mpc.getSolutionStructure(),0.0); s.getSolutionPart(w4::COP_VARIABLES_ID)=cop; s.getSolutionPart(w4::FOOTPOS_VARIABLES_ID)=fp; return s; }
    // advance the reference by one sub-sample of the motion; returns which foot landed (0 none, 1 left, 2 right)
    int advance(const Horizon&H,const Motion&m)
    {
        V6 x=stateAt(H,m,Ts); U o0,i0=at(t,o0),o1,i1=at(t+Ts,o1); int landed=0; c=x;
        if(i1!=i0&&it[i1].type==ST::TDS&&it[i0].type!=ST::DS){ bool left=it[i0].type==ST::RSS; const Iv&v=H.iv[H.var[0]]; Foot f; f.yaw=v.theta; f.z=left?R.z:L.z; f.p=v.type==ST::DS?V2(m.step[0]+rot(v.theta)*adsOffset(left)):m.step[0]; (left?L:R)=f; landed=left?1:2; }
        t+=Ts; return landed;
    }
};
}
