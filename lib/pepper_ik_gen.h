// pepper_ik: the shipped models (optionally with generated masses and dimensions), reference kinematics, generated states
#pragma once
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/pepper_ik.h"
#include "tree_gen.h"
namespace ik=humoto::pepper_ik; typedef ik::ModelFeatures MF;
enum { TORSO=MF::FIXED_WHEELS|MF::ROOT_TORSO, TIBIA=MF::FIXED_WHEELS|MF::ROOT_TIBIA, PLANAR=MF::FIXED_WHEELS|MF::ROOT_PLANAR };
inline std::string ikConfig(){ return std::string(PBT_REPO)+"/modules/pepper_ik/config/"; }
template<int F> std::string urdf(){ return F==TORSO?"pepper_fixedwheels.urdf":F==TIBIA?"pepper_fixedwheels_roottibia.urdf":"pepper_fixedwheels_roottibia_planar.urdf"; }
template<int F> const D::Addons::StubUrdf& shipped(){ static D::Addons::StubUrdf u=D::Addons::stubParse(ikConfig()+urdf<F>()); return u; }
struct IkTree: Tree { std::vector<std::string> joint; std::vector<std::string> jointOfDof;
    void add(const D::Addons::StubUrdf&u,const std::string&link,int id){ for(auto&x:u.joints) if(x.second.parent==link){ const D::Addons::StubJoint&j=x.second; Node d; d.parent=id; d.p=j.xyz; d.rpy=j.rpy; d.name=j.child; d.mass=u.links.at(j.child).mMass; d.com=u.links.at(j.child).mCenterOfMass; d.q=dof; d.kind=CHAIN;
            if(j.type=="revolute"){ d.kind=REV; d.ax={{true,j.axis.normalized()}}; } else if(j.type=="floating") d.ax={{false,V3::UnitX()},{false,V3::UnitY()},{false,V3::UnitZ()},{true,V3::UnitX()},{true,V3::UnitY()},{true,V3::UnitZ()}}; else if(j.type=="planar") d.ax={{false,V3::UnitX()},{false,V3::UnitY()},{true,V3::UnitZ()}}; else d.kind=FIXED;
            for(size_t i=0;i<d.ax.size();++i) jointOfDof.push_back(j.name); dof+=d.ax.size(); int me=n.size(); n.push_back(d); joint.push_back(j.name); add(u,j.child,me); } }
    void from(const D::Addons::StubUrdf&u){ n.clear(); joint.clear(); jointOfDof.clear(); dof=0; std::map<std::string,bool> child; for(auto&j:u.joints) child[j.second.child]=true; std::string root; for(auto&l:u.links) if(!child[l.first]) root=l.first; add(u,root,-1); }
    int find(const std::string&s)const{ for(size_t i=0;i<n.size();++i) if(n[i].name==s) return i; return -1; } };
template<int F> struct Desc { typedef ik::ModelDescription<F> MD; static const std::vector<std::pair<const char*,int> >&joints(){ 
    #define JN(x) {#x,MD::x}
    static const std::vector<std::pair<const char*,int> > v={JN(HeadYaw),JN(HeadPitch),JN(HipRoll),JN(HipPitch),JN(KneePitch),JN(LShoulderPitch),JN(LShoulderRoll),JN(LElbowYaw),JN(LElbowRoll),JN(LWristYaw),JN(RShoulderPitch),JN(RShoulderRoll),JN(RElbowYaw),JN(RElbowRoll),JN(RWristYaw)}; return v; } };
template<int F> struct Robot {
    typedef ik::Model<F> Model; typedef ik::GeneralizedCoordinates<F> GC; typedef ik::ModelDescription<F> MD; IkTree t; std::unique_ptr<Model> m; bool own;
    // as shipped or, for half of the cases, another robot with the same structure
    void gen(pbt::Case&g){ D::Addons::StubUrdf u=shipped<F>(); own=g.flip(); g.note("robot",own?"generated":"shipped"); if(own){ double s=g.real(.5,2); int k=g.range(0,4); for(auto&l:u.links) if(l.second.mMass>0){ l.second.mMass*=g.flip()?s:1; l.second.mCenterOfMass*=s; } int c=0; for(auto&j:u.joints){ if(j.second.type!="floating"&&j.second.type!="planar"&&c++%5==k){ j.second.xyz+=vec(g,.2); if(j.second.type!="fixed"||g.flip()) j.second.rpy+=V3(0,0,g.real(-.5,.5)); } } }
        t.from(u); D::Addons::registry()["robot"]=[&](D::Model&x,bool floating){ PBT_CHECK(floating==(F!=PLANAR),"kind of the base"); t.build(x); }; m.reset(new Model); if(g.chance(1,8)){ g.tag("model loaded again"); m->loadParameters(own||g.flip()?"robot":ikConfig()+urdf<F>()); if(g.flip()){ GC a; m->updateState(a); } } m->loadParameters(own||g.flip()?"robot":ikConfig()+urdf<F>()); }
    void genState(pbt::Case&g,GC&s,bool within=true){ typename Model::Constraints c; for(int i=0;i<MD::JOINTS_DOF_NUMBER;++i){ double lo=c.joint_position_bounds_min_(i),hi=c.joint_position_bounds_max_(i); s.joint_angles_(i)=within?lo+(hi-lo)*g.real(0,1):g.real(-3,3); if(within&&g.chance(1,10)) s.joint_angles_(i)=g.flip()?lo:hi; } for(int i=0;i<MD::ROOT_DOF_NUMBER;++i) s.root_pose_(i)=g.chance(1,5)?0:g.real(-3,3); }
    VX q(const GC&s)const{ VX v(MD::DOF_NUMBER); for(int i=0;i<MD::ROOT_DOF_NUMBER;++i) v(i)=s.root_pose_(i); for(int i=0;i<MD::JOINTS_DOF_NUMBER;++i) v(MD::ROOT_DOF_NUMBER+i)=s.joint_angles_(i); return v; }
    FK fk(const GC&s)const{ return FK(t,q(s)); }
    Mass base(const FK&k)const{ int b=t.find("Tibia"); return total(t,k,[&](size_t j){ return t.movable(j)==b; }); }
    Mass body(const FK&k)const{ int b=t.find("Tibia"); return total(t,k,[&](size_t j){ return t.movable(j)!=b; }); }
    int foot()const{ return t.find("base_footprint"); }
};
inline double angle(double a){ return std::atan2(std::sin(a),std::cos(a)); }
