// Reader of URDF files with the conventions of RBDL's urdfreader: a root link without inertia is the world, children are
// visited depth first in the (alphabetical) order of the names of their joints, a floating joint has the axes x, y, z, rx, ry, rz and a planar one x, y, rz.
#pragma once
#include "../../rbdl.h"
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <sstream>
namespace RigidBodyDynamics { namespace Addons {
inline std::map<std::string,std::function<void(Model&,bool)> >& registry(){ static std::map<std::string,std::function<void(Model&,bool)> > r; return r; }
inline Vector3d stubVec(const std::string&s){ std::istringstream i(s); Vector3d v=Vector3d::Zero(); i>>v(0)>>v(1)>>v(2); return v; }
inline SpatialVector stubAxis(double a,double b,double c,double d,double e,double f){ SpatialVector s; s<<a,b,c,d,e,f; return s; }
struct StubJoint{ std::string name,type,parent,child; Vector3d xyz,rpy,axis; double lower,upper,velocity; bool limited; };
struct StubUrdf{ std::map<std::string,StubJoint> joints; std::map<std::string,Body> links; std::map<std::string,bool> inertial; };
inline StubUrdf stubParse(const std::string&file)
{
    boost::property_tree::ptree t; boost::property_tree::read_xml(file,t); StubUrdf u;
    for(auto&e:t.get_child("robot"))
    {
        if(e.first=="link"){ std::string n=e.second.get<std::string>("<xmlattr>.name"); Body b; bool has=false; if(auto i=e.second.get_child_optional("inertial")){ has=true; b.mMass=i->get<double>("mass.<xmlattr>.value"); b.mCenterOfMass=stubVec(i->get<std::string>("origin.<xmlattr>.xyz","0 0 0")); } u.links[n]=b; u.inertial[n]=has; }
        if(e.first=="joint"){ StubJoint j; j.name=e.second.get<std::string>("<xmlattr>.name"); j.type=e.second.get<std::string>("<xmlattr>.type"); j.parent=e.second.get<std::string>("parent.<xmlattr>.link"); j.child=e.second.get<std::string>("child.<xmlattr>.link"); j.xyz=stubVec(e.second.get<std::string>("origin.<xmlattr>.xyz","0 0 0")); j.rpy=stubVec(e.second.get<std::string>("origin.<xmlattr>.rpy","0 0 0")); j.axis=stubVec(e.second.get<std::string>("axis.<xmlattr>.xyz","1 0 0")); j.limited=!!e.second.get_child_optional("limit"); j.lower=e.second.get<double>("limit.<xmlattr>.lower",0); j.upper=e.second.get<double>("limit.<xmlattr>.upper",0); j.velocity=e.second.get<double>("limit.<xmlattr>.velocity",0); u.joints[j.name]=j; }
    }
    return u;
}
inline void stubVisit(Model&m,const StubUrdf&u,const std::string&link,unsigned int id)
{
    for(auto&n:u.joints) if(n.second.parent==link)
    {
        const StubJoint&j=n.second; Matrix3d R=(Eigen::AngleAxisd(j.rpy(2),Vector3d::UnitZ())*Eigen::AngleAxisd(j.rpy(1),Vector3d::UnitY())*Eigen::AngleAxisd(j.rpy(0),Vector3d::UnitX())).matrix();
        SpatialTransform X(R.transpose(),j.xyz); std::vector<SpatialVector> a; Joint q(JointTypeFixed); Vector3d d=j.axis.norm()>0?Vector3d(j.axis.normalized()):j.axis;
        if(j.type=="revolute"||j.type=="continuous") a.push_back(stubAxis(d(0),d(1),d(2),0,0,0));
        else if(j.type=="prismatic") a.push_back(stubAxis(0,0,0,d(0),d(1),d(2)));
        else if(j.type=="floating"){ a.push_back(stubAxis(0,0,0,1,0,0)); a.push_back(stubAxis(0,0,0,0,1,0)); a.push_back(stubAxis(0,0,0,0,0,1)); a.push_back(stubAxis(1,0,0,0,0,0)); a.push_back(stubAxis(0,1,0,0,0,0)); a.push_back(stubAxis(0,0,1,0,0,0)); }
        else if(j.type=="planar"){ a.push_back(stubAxis(0,0,0,1,0,0)); a.push_back(stubAxis(0,0,0,0,1,0)); a.push_back(stubAxis(0,0,1,0,0,0)); }
        if(a.size()) q=Joint(a);
        unsigned int c=m.AddBody(id,X,q,u.links.at(j.child),j.child); stubVisit(m,u,j.child,c);
    }
}
inline bool URDFReadFromFile(const char*file,Model*m,bool floating,bool)
{
    if(registry().count(file)){ registry()[file](*m,floating); return true; }
    try
    {
        StubUrdf u=stubParse(file); std::map<std::string,bool> child; for(auto&j:u.joints) child[j.second.child]=true; std::string root; for(auto&l:u.links) if(!child[l.first]) root=l.first;
        unsigned int id=0;
        if(u.inertial[root]){ Joint j(JointTypeFixed); if(floating){ std::vector<SpatialVector> a; a.push_back(stubAxis(0,0,0,1,0,0)); a.push_back(stubAxis(0,0,0,0,1,0)); a.push_back(stubAxis(0,0,0,0,0,1)); a.push_back(stubAxis(1,0,0,0,0,0)); a.push_back(stubAxis(0,1,0,0,0,0)); a.push_back(stubAxis(0,0,1,0,0,0)); j=Joint(a); } id=m->AddBody(0,SpatialTransform(),j,u.links[root],root); }
        stubVisit(*m,u,root,id); return true;
    }
    catch(const std::exception&){ return false; }
}
}}
