// PBT-rule: a moved configuration (several joints and root coordinates differ from zero) with at least two different tasks
// PBT-assume: RBDL is a stand-in with its documented conventions, validated against the reference values of the repository (pepper_ik/tests/regression_test_000.ref) | rotation errors are examined as sine of the angle times the axis, see C14 | prescribed poses are examined for rotations below 0.03 rad per control interval, away from pitch of a quarter turn
// PBT-scale: 6
// PBT-flags: -I{V}/lib/stubs -DPBT_REPO="{R}"
#include "pepper_ik_gen.h"
#include <unistd.h>
typedef Eigen::Matrix<double,6,1> V6; typedef humoto::rbdl::SpatialType ST;
static V3 rotError(const M3&is,const M3&want){ M3 E=want*is.transpose(); return V3(.5*(E(2,1)-E(1,2)),.5*(E(0,2)-E(2,0)),.5*(E(1,0)-E(0,1))); }
static V6 vec6(pbt::Case&g,double v,double w){ V6 x; x<<vec(g,v),vec(g,w); return x; }
enum { BCOM,DCOM,BORI,JREF,ARMS,HEAD,JLIM,TORI,TANG,TVEL,TPOSE,TPOSE3,KINDS };
static const char*NAME[]={"base centre of mass","body centre of mass","base orientation","joint reference","fixed arms","fixed head","joint limits","tag orientation","tag angular velocity","tag velocity","tag pose","tag position in the plane"};
struct Spec { int kind; double gain,k; int flags; std::string tag; V3 rpy; VX ref; humoto::TaskSharedPointer t; bool usesTag()const{ return kind>=TORI; } };
struct Scratch { std::string n; Scratch(){ const char*s=getenv("PBT_SCRATCH"); n=std::string(s&&*s?s:".")+"/ik"+std::to_string(getpid()); } ~Scratch(){ ::unlink(n.c_str()); } };
template<int F> void makeTask(pbt::Case&g,Spec&s,bool again)
{
    typedef ik::ModelDescription<F> MD; bool cfg=again||g.chance(1,3);
    s.gain=g.chance(1,4)?1:g.real(.05,5)*(g.chance(1,10)?-1:1); s.k=g.chance(1,4)?1:g.real(-2,2); s.flags=g.chance(1,4)?7:g.range(1,7); s.rpy=g.chance(1,5)?V3(0,0,0):vec(g,3); typename MD::JointAnglesVector d; MD::getDefaultJointAngles(d); s.ref=d;
    if(!again&&!cfg)
    {
        double a=s.gain,b=s.k; bool dflt=g.chance(1,5); if(dflt){ s.gain=s.k=a=b=1; s.flags=7; s.rpy.setZero(); } using namespace ik;
        switch(s.kind){ case BCOM: s.t.reset(dflt?new TaskBaseCoMTracking<F>():new TaskBaseCoMTracking<F>(a,b)); break; case DCOM: s.t.reset(dflt?new TaskBodyCoMTracking<F>():new TaskBodyCoMTracking<F>(a,b,s.flags)); break; case BORI: s.t.reset(dflt?new TaskBaseOrientation<F>():new TaskBaseOrientation<F>(a,b)); break; case JREF: s.t.reset(dflt?new TaskJointsReference<F>():new TaskJointsReference<F>(a,b)); break;
            case ARMS: s.t.reset(new TaskFixArms<F>()); break; case HEAD: s.t.reset(new TaskFixHead<F>()); break; case JLIM: s.t.reset(new TaskJointsBounds<F>()); break;
            case TORI: s.t.reset(dflt?new TaskTagOrientation<F>(s.tag):new TaskTagOrientation<F>(s.tag,s.rpy,a,b)); break; case TANG: s.t.reset(dflt?new TaskTagAngularVelocity<F>(s.tag):new TaskTagAngularVelocity<F>(s.tag,a,b)); break; case TVEL: s.t.reset(dflt?new TaskTagCompleteVelocity<F>(s.tag):new TaskTagCompleteVelocity<F>(s.tag,a,b)); break; case TPOSE: s.t.reset(dflt?new TaskTagPose<F>(s.tag):new TaskTagPose<F>(s.tag,a,b)); break; case TPOSE3: s.t.reset(dflt?new TaskTagPose3Dof<F>(s.tag):new TaskTagPose3Dof<F>(s.tag,a,b)); break; }
        return;
    }
    if(!again){ using namespace ik; switch(s.kind){ case BCOM: s.t.reset(new TaskBaseCoMTracking<F>()); break; case DCOM: s.t.reset(new TaskBodyCoMTracking<F>(3,2,1)); break; case BORI: s.t.reset(new TaskBaseOrientation<F>()); break; case JREF: s.t.reset(new TaskJointsReference<F>()); break; case ARMS: s.t.reset(new TaskFixArms<F>()); break; case HEAD: s.t.reset(new TaskFixHead<F>()); break; case JLIM: s.t.reset(new TaskJointsBounds<F>()); break; case TORI: s.t.reset(new TaskTagOrientation<F>("torso",V3(1,1,1))); break; case TANG: s.t.reset(new TaskTagAngularVelocity<F>()); break; case TVEL: s.t.reset(new TaskTagCompleteVelocity<F>()); break; case TPOSE: s.t.reset(new TaskTagPose<F>()); break; case TPOSE3: s.t.reset(new TaskTagPose3Dof<F>()); break; } }
    // the same through the configuration, entries in any order, some of them left to their defaults
    static const char*K[]={"k_position_gain","k_position_gain","k_orientation_gain","k_position_gain",0,0,0,"k_orientation_gain","k_angular_velocity_gain","k_complete_velocity_gain","k_pose_gain","k_pose_gain"};
    struct E { std::string n; int what; }; std::vector<E> e; if(s.kind<ARMS||s.usesTag()){ e.push_back({"gain",0}); e.push_back({K[s.kind],1}); } if(s.kind==DCOM) e.push_back({"axis_flag",2}); if(s.usesTag()) e.push_back({"tag_string_id",3}); if(s.kind==TORI) e.push_back({"reference_rpy",4}); if(s.kind==JREF) e.push_back({"joint_angles_reference",5});
    bool strict=true; for(size_t i=0;i<e.size();++i) std::swap(e[i],e[g.range(i,e.size()-1)]); if(!e.empty()&&g.chance(1,4)){ E x=e.back(); if(x.what==2||x.what==4||x.what==5){ strict=false; e.pop_back(); if(x.what==2) s.flags=7; else if(x.what==4) s.rpy.setZero(); } } if(s.kind==JREF&&strict) for(int i=0;i<s.ref.size();++i) s.ref(i)=g.real(-1,1);
    msgpack::sbuffer buf; msgpack::packer<msgpack::sbuffer> p(&buf); p.pack_map(1); p.pack(std::string("T")); p.pack_map(e.size()); for(auto&x:e){ p.pack(x.n); switch(x.what){ case 0: p.pack(s.gain); break; case 1: p.pack(s.k); break; case 2: p.pack(s.flags); break; case 3: p.pack(s.tag); break; default: { VX v=x.what==4?VX(s.rpy):s.ref; p.pack_array(v.size()); for(int i=0;i<v.size();++i) p.pack(v(i)); } } }
    Scratch f; { std::ofstream o(f.n.c_str(),std::ios::binary); o.write(buf.data(),buf.size()); } s.t->template readConfig<humoto::config::msgpack::Reader>(f.n,std::string("T"),strict); g.tag(again?"configured again":"configured");
}
template<int F> void tasks(pbt::Case&g)
{
    typedef ik::ModelDescription<F> MD; typedef typename Robot<F>::GC GC; const int N=MD::DOF_NUMBER,RN=MD::ROOT_DOF_NUMBER,JN=MD::JOINTS_DOF_NUMBER; const bool planar=F==PLANAR; Robot<F> r[2]; r[0].gen(g); bool two=g.chance(1,4); if(two) r[1].gen(g); int cur=0;
    ik::WBCParameters wp; if(g.flip()){ wp.control_interval_ms_=g.range(1,20); wp.control_interval_=.001*wp.control_interval_ms_; } ik::WholeBodyController<F> wbc(wp); PBT_CHECK(std::fabs(wp.control_interval_-.001*wp.control_interval_ms_)<1e-12,"control interval");
    int lev=g.range(1,3); humoto::OptimizationProblem op; op.reset(lev); std::vector<Spec> sp; std::vector<int> level; int n=g.range(std::max(2,lev),6); auto someTag=[&](){ return r[0].t.n[g.range(0,r[0].t.n.size()-1)].name; };
    std::string names[3]={someTag(),someTag(),someTag()}; std::set<int> kinds;
    for(int i=0;i<n;++i){ Spec s; s.kind=g.range(0,KINDS-1); kinds.insert(s.kind); s.tag=names[g.range(0,2)]; makeTask<F>(g,s,false); sp.push_back(s); level.push_back(i<lev?i:g.range(0,lev-1)); op.pushTask(s.t,level[i]); }
    std::map<std::string,V6> desired; // as prescribed (frames)
    struct Want{ M3 R; V3 p; double tol; }; std::map<std::string,Want> want; int rounds=g.range(1,3);
    for(int it=0;it<rounds;++it)
    {
        if(two&&it) cur=g.range(0,1); Robot<F>&rb=r[cur]; GC s; if(it||g.chance(3,4)) rb.genState(g,s,g.flip()); rb.m->updateState(s); FK k=rb.fk(s); g.nontrivial(kinds.size()>1&&!s.joint_angles_.isZero(.1)&&!s.root_pose_.isZero());
        ik::MotionParameters mp; if(g.chance(4,5)){ mp.base_com_position_=vec(g,2); mp.body_com_position_=vec(g,2); mp.base_orientation_rpy_=vec(g,3); } PBT_CHECK(wbc.update(*rb.m,mp)==humoto::ControlProblemStatus::OK,"status");
        // prescribed velocities of tags
        if(it==0||g.flip()){ std::map<std::string,etools::Vector6> v; for(int i=0;i<3;++i) if(g.chance(2,3)) v[names[i]]=vec6(g,2,1.5); wbc.setTagsVelocity(v); desired.clear(); for(auto&x:v) desired[x.first]=x.second; }
        if(g.chance(2,3))
        {
            for(auto&x:desired){ int b=rb.t.find(x.first); Want y; V3 om=x.second.tail(3); double a=om.norm()*wp.control_interval_; y.R=k.f[b].R*(a>1e-12?rotm(om.normalized(),a):M3(M3::Identity())); y.p=k.f[b].p+wp.control_interval_*k.f[b].R*x.second.head(3); y.tol=2*a*a+1e-7; M3&R=y.R; if(std::hypot(R(0,0),R(1,0))<.05) y.tol=-1; want[x.first]=y; }
            wbc.computeTagsDesiredPoseInGlobal(*rb.m); g.tag("poses prescribed");
            if(g.flip()){ GC z=s; for(int i=0;i<JN;++i) z.joint_angles_(i)+=g.real(-.1,.1); s=z; rb.m->updateState(s); k=rb.fk(s); }
        }
        for(auto&nm:names)
        {
            int b=rb.t.find(nm); const M3&R=k.f[b].R; V6 v=V6::Zero(); if(desired.count(nm)) v=desired[nm]; pbt::checkMat(wbc.getTagVelocityInLocal(nm,ST::COMPLETE),v,"velocity of a tag",0,1); pbt::checkMat(wbc.getTagVelocityInLocal(nm,ST::ROTATION),v.tail(3),"angular velocity of a tag",0,1); pbt::checkMat(wbc.getTagVelocityInLocal(nm,ST::TRANSLATION),v.head(3),"linear velocity of a tag",0,1);
            V6 gl; gl<<R*v.tail(3),R*v.head(3); pbt::checkMat(wbc.getTagVelocityInGlobal(*rb.m,nm,v,ST::COMPLETE),gl,"global velocity of a tag",1e-9,10); pbt::checkMat(wbc.getTagVelocityInGlobal(*rb.m,nm,v,ST::ROTATION),gl.head(3),"global angular velocity of a tag",1e-9,10); pbt::checkMat(wbc.getTagVelocityInGlobal(*rb.m,nm,v,ST::TRANSLATION),gl.tail(3),"global linear velocity of a tag",1e-9,10);
            V6 e=wbc.getTagPoseErrorInGlobal(*rb.m,nm); if(!want.count(nm)) pbt::checkMat(e,V6::Zero(),"pose error without a prescribed pose",0,1); else if(want[nm].tol>0){ V6 x; x<<rotError(R,want[nm].R),want[nm].p-k.f[b].p; pbt::checkMat(e,x,"pose error",want[nm].tol,1); pbt::checkMat(e.tail(3),x.tail(3),"position error",1e-9,10); }
        }
        { V6 v=V6::Zero(); std::string c="CameraTop_optical_frame"; int b=rb.t.find(c); if(desired.count(c)) v=desired[c]; V6 gl; gl<<k.f[b].R*v.tail(3),k.f[b].R*v.head(3); pbt::checkMat(wbc.getBaseVelocityInGlobal(*rb.m),gl,"velocity of the camera",1e-9,10); }
        if(it&&g.flip()){ int i=g.range(0,n-1); sp[i].tag=names[g.range(0,2)]; makeTask<F>(g,sp[i],true); }
        humoto::Solution sol; bool plain=g.flip(); if(plain) op.form(sol,*rb.m,wbc); else { humoto::ActiveSet as; op.form(sol,as,*rb.m,wbc); } PBT_CHECK((int)sol.getNumberOfVariables()==N,"number of variables");
        auto loc=[&](int i){ for(auto&q:op[level[i]].tasks_) if(q.ptr_.get()==sp[i].t.get()) return q.location_; PBT_CHECK(false,"task disappeared"); return humoto::Location(); };
        for(int q=0;q<2;++q)
        {
            VX x=VX::Zero(N); if(q||g.flip()) for(int i=0;i<N;++i) x(i)=g.real(-1,1); sol.getSolutionPart(ik::ROOT_VARIABLES_ID)=x.head(RN); sol.getSolutionPart(ik::JOINTS_VARIABLES_ID)=x.tail(JN); humoto::Violations vi; op.computeViolations(vi,sol);
            for(int i=0;i<n;++i)
            {
                const Spec&t=sp[i]; humoto::Location l=loc(i); auto&v=vi[level[i]]; VX e; double tol=1e-8; int b=t.usesTag()?rb.t.find(t.tag):-1; Mass mb=rb.base(k),md=rb.body(k); int f=rb.foot();
                MX Jt; V6 vel=V6::Zero(); if(b>=0){ Jt=k.jac(b,V3::Zero(),N); if(desired.count(t.tag)) vel=desired[t.tag]; }
                switch(t.kind)
                {
                    case BCOM: { V3 y=mb.mJ/mb.m*x-t.k*(mp.base_com_position_-mb.mc/mb.m); e=planar?VX(y.head(2)):VX(y); break; }
                    case DCOM: { V3 y=md.mJ/md.m*x-t.k*(mp.body_com_position_-md.mc/md.m); std::vector<double> o; for(int a=0;a<3;++a) if(t.flags&(1<<a)) o.push_back(y(a)); e=Eigen::Map<VX>(o.data(),o.size()); break; }
                    case BORI: { V3 y=k.jac(f,V3::Zero(),N).topRows(3)*x-t.k*rotError(k.f[f].R,rpym(mp.base_orientation_rpy_)); e=planar?VX(y.tail(1)):VX(y); tol=1e-6; break; }
                    case JREF: e=x.tail(JN)-t.k*(t.ref-s.joint_angles_); break;
                    case ARMS: case HEAD: { std::vector<double> o; for(auto&j:Desc<F>::joints()){ bool head=std::string(j.first).substr(0,4)=="Head",arm=j.first[0]=='L'||j.first[0]=='R'; if(t.kind==HEAD?head:arm) o.push_back(x(RN+j.second)); } std::sort(o.begin(),o.end()); e=Eigen::Map<VX>(o.data(),o.size()); break; }
                    case TORI: e=Jt.topRows(3)*x-t.k*rotError(k.f[b].R,rpym(t.rpy)); tol=1e-6; break;
                    case TANG: e=Jt.topRows(3)*x-t.k*k.f[b].R*vel.tail(3); break;
                    case TVEL: { V6 y; y<<k.f[b].R*vel.tail(3),k.f[b].R*vel.head(3); e=Jt*x-t.k*y; break; }
                    case TPOSE: case TPOSE3: { V6 y=V6::Zero(); if(want.count(t.tag)){ if(want[t.tag].tol<0) continue; tol=want[t.tag].tol*(1+std::fabs(t.k)); y<<rotError(k.f[b].R,want[t.tag].R),want[t.tag].p-k.f[b].p; } if(t.kind==TPOSE3) y.segment(2,3).setZero(); e=Jt*x-t.k*y; break; }
                }
                if(t.kind==JLIM){ PBT_CHECK((int)l.length_==JN,"rows"); typename Robot<F>::Model::Constraints c; for(int j=0;j<JN;++j){ double y=s.joint_angles_(j)+x(RN+j),lo=y-c.joint_position_bounds_min_(j),hi=y-c.joint_position_bounds_max_(j); PBT_CHECK(std::fabs(v.getLower(l.offset_+j)-lo)<1e-9&&std::fabs(v.getUpper(l.offset_+j)-hi)<1e-9,"distance of joint "<<j<<" to its limits"); } continue; }
                if(t.kind!=ARMS&&t.kind!=HEAD) { e*=t.gain; tol*=1+std::fabs(t.gain); }
                PBT_CHECK((int)l.length_==e.size(),NAME[t.kind]<<" has "<<l.length_<<" rows instead of "<<e.size()); VX got(e.size()); for(int j=0;j<e.size();++j){ got(j)=v[l.offset_+j]; PBT_CHECK(std::fabs(v.getLower(l.offset_+j)-got(j))<1e-9&&std::fabs(v.getUpper(l.offset_+j)-got(j))<1e-9,NAME[t.kind]<<" is not an equality"); } if(t.kind==ARMS||t.kind==HEAD) std::sort(got.data(),got.data()+got.size());
                pbt::checkMat(got,e,std::string("residual of ")+NAME[t.kind],tol,10);
            }
        }
        // the next configuration
        VX x(N); for(int i=0;i<N;++i) x(i)=g.real(-1,1); sol.getSolutionPart(ik::ROOT_VARIABLES_ID)=x.head(RN); sol.getSolutionPart(ik::JOINTS_VARIABLES_ID)=x.tail(JN); GC nx=wbc.getNextGeneralizedCoordinates(sol,*rb.m); pbt::checkMat(nx.root_pose_,s.root_pose_+x.head(RN),"next root pose",1e-12,10); pbt::checkMat(nx.joint_angles_,s.joint_angles_+x.tail(JN),"next joint angles",1e-12,10); pbt::checkMat(rb.m->getState().joint_angles_,s.joint_angles_,"the model is not changed",0,1);
        PBT_CHECK(pbt::throwsCleanly([&]{ wbc.getNextGeneralizedCoordinates(sol,*rb.m); }),"a solution was used twice");
    }
    if(g.chance(1,4)){ humoto::OptimizationProblem o2; o2.reset(1); humoto::TaskSharedPointer t; bool fl=g.flip(); if(fl){ int bad=g.pick(std::vector<int>{0,8,15,-1,1<<20}); t.reset(new ik::TaskBodyCoMTracking<F>(1,1,bad)); } else t.reset(new ik::TaskTagPose<F>(g.flip()?"":"no such link")); o2.pushTask(t,0); humoto::Solution sol; PBT_CHECK(pbt::throwsCleanly([&]{ o2.form(sol,*r[cur].m,wbc); }),(fl?"wrong axes":"a tag that does not exist")); }
}
PBT_PROP(tasks_torso,3000,60000){ tasks<TORSO>(g); }
PBT_PROP(tasks_tibia,3000,60000){ tasks<TIBIA>(g); }
PBT_PROP(tasks_planar,4000,60000){ tasks<PLANAR>(g); }
PBT_MAIN
