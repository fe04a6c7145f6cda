// Kinematic trees: generator, construction with the RBDL stand-in and an independent forward kinematics.
#pragma once
#include <rbdl/rbdl.h>
#include <rbdl/rbdl_utils.h>
#include <rbdl/addons/urdfreader/urdfreader.h>
#include "pbt.h"
namespace D=RigidBodyDynamics; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
enum Kind{ FIXED, REV, PRIS, ZYX, XYZ, TRANS, CHAIN, UNIVERSAL, CYLINDRICAL };
struct Axis{ bool rot; V3 a; };
struct Node{ int parent; V3 p,rpy; Kind kind; std::vector<Axis> ax; double mass; V3 com; std::string name; int q; };
M3 rotm(const V3&a,double q){ double c=std::cos(q),s=std::sin(q); M3 K; K<<0,-a(2),a(1),a(2),0,-a(0),-a(1),a(0),0; return M3::Identity()+s*K+(1-c)*K*K; }
M3 rpym(const V3&v){ return rotm(V3(0,0,1),v(2))*rotm(V3(0,1,0),v(1))*rotm(V3(1,0,0),v(0)); }
struct Universal: D::CustomJoint { V3 a,b; Universal(V3 x,V3 y):a(x),b(y){ mDoFCount=2; S=MX::Zero(6,2); } void jcalc(D::SpatialTransform&X,const double*q){ M3 r2=Eigen::AngleAxisd(q[1],b).toRotationMatrix(),r1=Eigen::AngleAxisd(q[0],a).toRotationMatrix(); X.E=(r1*r2).transpose(); S.setZero(); S.col(0).head(3)=r2.transpose()*a; S.col(1).head(3)=b; } };
struct Cylindrical: D::CustomJoint { V3 a; Cylindrical(V3 x):a(x){ mDoFCount=2; S=MX::Zero(6,2); S.col(0).head(3)=a; S.col(1).tail(3)=a; } void jcalc(D::SpatialTransform&X,const double*q){ X.E=Eigen::AngleAxisd(-q[0],a).toRotationMatrix(); X.r=a*q[1]; } };
V3 unit(pbt::Case&g){ if(g.chance(1,3)) return V3::Unit(g.range(0,2)); V3 v(g.real(-1,1),g.real(-1,1),g.real(-1,1)); if(v.norm()<.1) v=V3(1,0,0); return v.normalized(); }
V3 vec(pbt::Case&g,double s){ return V3(g.real(-s,s),g.real(-s,s),g.real(-s,s)); }
struct Tree { std::vector<Node> n; int dof; std::string name; bool floating;
    void gen(pbt::Case&g){ n.clear(); dof=0; int k=g.range(1,9); floating=g.flip(); name="tree"; for(int i=0;i<k;++i){ Node d; d.parent=i==0||g.chance(1,8)?-1:g.range(std::max(0,i-3),i-1); d.p=vec(g,1); d.rpy=g.chance(1,3)?V3(0,0,0):vec(g,3); d.kind=(Kind)(g.chance(1,3)?(int)REV:g.range(0,8)); d.name="link"+std::to_string(i); d.mass=g.chance(1,5)?0:g.real(.1,10); d.com=g.chance(1,5)?V3(0,0,0):vec(g,.5); 
            if(i==0&&d.kind==FIXED) d.kind=REV; 
            switch(d.kind){ case FIXED: break; case REV: d.ax={{true,unit(g)}}; break; case PRIS: d.ax={{false,unit(g)}}; break; case ZYX: d.ax={{true,V3::UnitZ()},{true,V3::UnitY()},{true,V3::UnitX()}}; break; case XYZ: d.ax={{true,V3::UnitX()},{true,V3::UnitY()},{true,V3::UnitZ()}}; break; case TRANS: d.ax={{false,V3::UnitX()},{false,V3::UnitY()},{false,V3::UnitZ()}}; break; case CHAIN: { int c=g.range(2,6); for(int j=0;j<c;++j) d.ax.push_back({g.flip(),unit(g)}); break; } case UNIVERSAL: d.ax={{true,unit(g)},{true,unit(g)}}; break; case CYLINDRICAL: { V3 a=unit(g); d.ax={{true,a},{false,a}}; break; } }
            d.q=dof; dof+=d.ax.size(); n.push_back(d); }
        for(size_t i=0;i<n.size();++i) if(world(i)) n[i].mass=0; if(n[0].mass==0) n[0].mass=1; 
        g.note("links",n.size()).note("dof",dof); }
    bool world(int i)const{ while(i>=0){ if(n[i].kind!=FIXED) return false; i=n[i].parent; } return true; }
    int movable(int i)const{ while(n[i].kind==FIXED&&n[i].parent>=0) i=n[i].parent; return i; }
    void build(D::Model&m)const{ std::vector<unsigned> id; for(auto&d:n){ unsigned p=d.parent<0?0:id[d.parent]; D::SpatialTransform X(rpym(d.rpy).transpose(),d.p); D::Body b(d.mass,d.com); D::Joint j(D::JointTypeFixed); std::shared_ptr<D::CustomJoint> c; std::vector<D::SpatialVector> a; for(auto&x:d.ax){ D::SpatialVector s; s.setZero(); if(x.rot) s.head<3>()=x.a; else s.tail<3>()=x.a; a.push_back(s); }
        switch(d.kind){ case FIXED: break; case REV: case PRIS: case CHAIN: j=D::Joint(a); break; case ZYX: j=D::Joint(D::JointTypeEulerZYX); break; case XYZ: j=D::Joint(D::JointTypeEulerXYZ); break; case TRANS: j=D::Joint(D::JointTypeTranslationXYZ); break; case UNIVERSAL: j=D::Joint(D::JointTypeCustom); c=std::make_shared<Universal>(d.ax[0].a,d.ax[1].a); break; case CYLINDRICAL: j=D::Joint(D::JointTypeCustom); c=std::make_shared<Cylindrical>(d.ax[0].a); break; }
        id.push_back(m.AddBody(p,X,j,b,d.name,c)); } }
};
struct Frame{ M3 R; V3 p; };
struct Col{ int q; bool rot; V3 a,o; };
struct FK { std::vector<Frame> f; std::vector<std::vector<Col> > cols;
    FK(const Tree&t,const VX&q){ for(auto&d:t.n){ Frame x; std::vector<Col> c; if(d.parent<0){ x.R.setIdentity(); x.p.setZero(); } else { x=f[d.parent]; c=cols[d.parent]; } x.p+=x.R*d.p; x.R=x.R*rpym(d.rpy); for(size_t i=0;i<d.ax.size();++i){ Col k; k.q=d.q+i; k.rot=d.ax[i].rot; k.a=x.R*d.ax[i].a; k.o=x.p; c.push_back(k); if(k.rot) x.R=x.R*rotm(d.ax[i].a,q(k.q)); else x.p+=k.a*q(k.q); } f.push_back(x); cols.push_back(c); } }
    V3 point(int i,const V3&l)const{ return f[i].p+f[i].R*l; }
    MX jac(int i,const V3&l,int dof)const{ MX J=MX::Zero(6,dof); V3 x=point(i,l); for(auto&c:cols[i]){ if(c.rot){ J.col(c.q).head(3)=c.a; J.col(c.q).tail(3)=c.a.cross(x-c.o); } else J.col(c.q).tail(3)=c.a; } return J; } };
struct Mass{ double m; V3 mc; MX mJ; };
// mass, first moment and its derivative of the links for which pred holds
template<class P> Mass total(const Tree&t,const FK&k,P pred){ Mass r; r.m=0; r.mc.setZero(); r.mJ=MX::Zero(3,t.dof); for(size_t i=0;i<t.n.size();++i) if(pred(i)){ double m=t.n[i].mass; r.m+=m; r.mc+=m*k.point(i,t.n[i].com); r.mJ+=m*k.jac(i,t.n[i].com,t.dof).bottomRows(3); } return r; }
MX dirty(pbt::Case&g){ return g.flip()?MX():MX(MX::Constant(g.range(1,7),g.range(1,7),42)); }
