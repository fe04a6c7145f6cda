// PBT-rule: a tree with at least three joints and a rotated configuration
// PBT-assume: RBDL is a stand-in with its documented conventions, validated against the reference values of the repository (pepper_ik/tests/regression_test_000.ref) | links fixed to the world have no mass | sets of links for a partial centre of mass have a positive mass
// PBT-flags: -I{V}/lib/stubs
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/rbdl.h"
#include "tree_gen.h"
namespace R=humoto::rbdl; using R::SpatialType;
PBT_PROP(kinematics,15000,300000)
{
    Tree t; t.gen(g); D::Addons::registry()["tree"]=[&](D::Model&m,bool f){ PBT_CHECK(f==t.floating,"the kind of base was not passed to the reader"); t.build(m); };
    std::unique_ptr<R::Model> m; R::ModelParameters p; PBT_CHECK(p.floating_base_,"default base"); p.floating_base_=t.floating; int how=g.range(0,2); bool again=g.chance(1,5);
    if(again){ g.tag("loaded in place of another model"); Tree o; o.gen(g); D::Addons::registry()["other"]=[&](D::Model&x,bool){ o.build(x); }; R::ModelParameters q; q.floating_base_=o.floating; m.reset(new R::Model(q,"other")); VX a=VX::Constant(o.dof,.3); if(g.flip()) m->update(a); if(g.flip()) m->load(p,"tree"); else { m->model_parameters_=p; m->load("tree"); } }
    else if(how==0) m.reset(new R::Model(p,"tree")); else if(how==1){ m.reset(new R::Model()); m->load(p,"tree"); } else { m.reset(new R::Model()); m->model_parameters_=p; m->load("tree"); }
    PBT_CHECK((int)m->getDOFNumber()==t.dof,"degrees of freedom");
    const double tol=1e-9; int rounds=g.range(1,3);
    for(int r=0;r<rounds;++r)
    {
        VX q(t.dof); for(int i=0;i<t.dof;++i) q(i)=g.chance(1,6)?0:g.real(-3,3); m->update(q); FK k(t,q); g.nontrivial(t.dof>=3&&!q.isZero(.1));
        for(int rep=0;rep<3;++rep)
        {
            int i=g.range(0,t.n.size()-1); V3 l=vec(g,1); const Node&d=t.n[i]; double s=1+k.f[i].p.norm();
            R::TagLinkPtr link=m->getLinkTag(d.name); R::TagPointPtr pt=m->getPointTag(d.name,l); g.tag(d.kind==FIXED?"fixed link":"movable link");
            pbt::checkMat(m->getTagPosition(link),k.f[i].p,"link position",tol,s); pbt::checkMat(m->getTagPosition(pt),k.point(i,l),"point position",tol,s); pbt::checkMat(m->getTagOrientation(link),k.f[i].R,"link orientation",tol,1); pbt::checkMat(m->getTagOrientation(pt),k.f[i].R,"point orientation",tol,1);
            humoto::rigidbody::RigidBodyPose a=m->getTagPose(link),b=m->getTagPose(pt); pbt::checkMat(a.position_,k.f[i].p,"pose of a link",tol,s); pbt::checkMat(b.position_,k.point(i,l),"pose of a point",tol,s); pbt::checkMat(rpym(a.rpy_),k.f[i].R,"orientation in the pose",1e-7,1); pbt::checkMat(rpym(b.rpy_),k.f[i].R,"orientation in the pose of a point",1e-7,1);
            MX J0=k.jac(i,V3::Zero(),t.dof),J1=k.jac(i,l,t.dof),J=dirty(g); m->getTagJacobian<SpatialType::COMPLETE>(J,link); pbt::checkMat(J,J0,"complete jacobian of a link",tol,s); J=dirty(g); m->getTagJacobian<SpatialType::TRANSLATION>(J,link); pbt::checkMat(J,J0.bottomRows(3),"translation jacobian of a link",tol,s); J=dirty(g); m->getTagJacobian<SpatialType::ROTATION>(J,link); pbt::checkMat(J,J0.topRows(3),"rotation jacobian of a link",tol,s);
            J=dirty(g); m->getTagJacobian<SpatialType::COMPLETE>(J,pt); pbt::checkMat(J,J1,"complete jacobian of a point",tol,s); J=dirty(g); m->getTagJacobian<SpatialType::TRANSLATION>(J,pt); pbt::checkMat(J,J1.bottomRows(3),"translation jacobian of a point",tol,s); J=dirty(g); m->getTagJacobian<SpatialType::ROTATION>(J,pt); pbt::checkMat(J,J1.topRows(3),"rotation jacobian of a point",tol,s);
            // mass and centre of mass: a movable link carries the links that are fixed to it
            auto group=[&](int x){ return [&t,x](size_t j){ return t.n[x].kind==FIXED?(int)j==x:!t.world(j)&&t.movable(j)==x; }; };
            Mass w=total(t,k,group(i)); PBT_CHECK(std::fabs(m->getTagMass(link)-w.m)<=1e-9*(1+w.m),"mass of "<<d.name<<" "<<m->getTagMass(link)<<" instead of "<<w.m);
            if(w.m>0) pbt::checkMat(m->getTagPosition(m->getLinkCoMTag(d.name)),w.mc/w.m,"centre of mass of a link",tol,s);
            else m->getLinkCoMTag(d.name);
        }
        R::TagCoMPtr c=m->getCoMTag(); Mass w=total(t,k,[&](size_t){ return true; }); double s=1+w.mc.norm(); PBT_CHECK(std::fabs(m->getTagMass(c)-w.m)<=1e-9*w.m,"total mass"); pbt::checkMat(m->getTagPosition(c),w.mc/w.m,"centre of mass",tol,s); MX J=dirty(g); m->getTagJacobian(J,c); pbt::checkMat(J,w.mJ/w.m,"jacobian of the centre of mass",tol,s+10);
        std::vector<std::string> names; Mass x; x.m=0; x.mc.setZero(); x.mJ=MX::Zero(3,t.dof); for(size_t i=0;i<t.n.size();++i) if(g.flip()){ names.push_back(t.n[i].name); Mass y=total(t,k,[&](size_t j){ return t.n[i].kind==FIXED?j==i:!t.world(j)&&t.movable(j)==(int)i; }); x.m+=y.m; x.mc+=y.mc; x.mJ+=y.mJ; }
        if(x.m>0){ g.tag("partial centre of mass"); R::TagPartialCoMPtr pc=m->getCoMTag(names); PBT_CHECK(std::fabs(m->getTagMass(pc)-x.m)<=1e-9*x.m,"mass of a set of links"); pbt::checkMat(m->getTagPosition(pc),x.mc/x.m,"centre of mass of a set of links",tol,s+10); J=dirty(g); m->getTagJacobian(J,pc); pbt::checkMat(J,x.mJ/x.m,"jacobian of the centre of mass of a set of links",tol,s+10); }
    }
}
PBT_PROP(errors,5000,50000)
{
    Tree t; t.gen(g); D::Addons::registry()["tree"]=[&](D::Model&m,bool){ t.build(m); }; R::Model m; m.model_parameters_.floating_base_=t.floating; m.load("tree"); VX q=VX::Zero(t.dof); m.update(q); g.nontrivial(t.dof>=3);
    std::string u=g.pick(std::vector<std::string>{"","nothing","link","link99","LINK0"}); g.note("name",u);
    PBT_CHECK(pbt::throwsCleanly([&]{ m.getLinkTag(u); }),"a tag of a link that does not exist"); PBT_CHECK(pbt::throwsCleanly([&]{ m.getPointTag(u,V3(1,2,3)); }),"a tag of a point on a link that does not exist"); PBT_CHECK(pbt::throwsCleanly([&]{ m.getLinkCoMTag(u); }),"the centre of mass of a link that does not exist"); std::vector<std::string> l; l.push_back(t.n[0].name); l.insert(l.begin()+g.range(0,1),u); PBT_CHECK(pbt::throwsCleanly([&]{ m.getCoMTag(l); }),"a set with a link that does not exist");
    PBT_CHECK(pbt::throwsCleanly([&]{ R::Model x; x.load("/nonexistent/model.urdf"); }),"a model that cannot be read"); PBT_CHECK(pbt::throwsCleanly([&]{ R::Model x("/nonexistent/model.urdf"); }),"a model that cannot be read");
}
PBT_PROP(spatial_transform,20000,200000)
{
    V3 x=vec(g,5); int n=g.range(1,6); MX A(6,n); for(int i=0;i<6;++i) for(int j=0;j<n;++j) A(i,j)=g.real(-3,3); Eigen::Matrix<double,6,6> T=Eigen::Matrix<double,6,6>::Identity(); M3 K; K<<0,-x(2),x(1),x(2),0,-x(0),-x(1),x(0),0; T.bottomLeftCorner<3,3>()=-K; MX E=T*A; g.nontrivial(n>1);
    R::SpatialTransformWithoutRotation t(x); MX o=MX::Constant(8,n+2,7); t.apply(o.block(1,1,6,n),A); MX e=MX::Constant(8,n+2,7); e.block(1,1,6,n)=E; pbt::checkMat(o,e,"motion vectors at another point",1e-12,50);
    o.setConstant(7); e.setConstant(7); t.applySelective<SpatialType::TRANSLATION>(o.block(2,1,3,n),A); e.block(2,1,3,n)=E.bottomRows(3); pbt::checkMat(o,e,"translation part",1e-12,50); o.setConstant(7); e.setConstant(7); t.applySelective<SpatialType::ROTATION>(o.block(2,1,3,n),A); e.block(2,1,3,n)=E.topRows(3); pbt::checkMat(o,e,"rotation part",1e-12,50); o.setConstant(7); e.setConstant(7); t.applySelective<SpatialType::COMPLETE>(o.block(0,0,6,n),A); e.block(0,0,6,n)=E; pbt::checkMat(o,e,"complete",1e-12,50);
    PBT_CHECK(SpatialType::getNumberOfElements(SpatialType::COMPLETE)==6&&SpatialType::getNumberOfElements(SpatialType::TRANSLATION)==3&&SpatialType::getNumberOfElements(SpatialType::ROTATION)==3,"sizes"); PBT_CHECK(pbt::throwsCleanly([&]{ SpatialType::getNumberOfElements(SpatialType::UNDEFINED); }),"undefined type"); 
}
PBT_MAIN
