// Stand-in for the parts of RBDL 2.x that the bridge uses, written from the documented conventions of RBDL:
//  - a SpatialTransform (E, r) maps motion vectors (angular, linear) from a parent to a child frame, E rotates parent coordinates
//    into child coordinates, r is the origin of the child in parent coordinates; X1 * X2 applies X2 first;
//  - bodies are numbered from 1 (0 is the world), lambda[] is the parent, X_base[] maps world coordinates to the body;
//  - joints with several axes are expanded into chains of massless bodies; bodies behind fixed joints are merged into
//    the movable parent and numbered from fixed_body_discriminator.
#pragma once
#include <Eigen/Dense>
#include <map>
#include <string>
#include <vector>
#include <limits>
#include <memory>
#include <cmath>
#include <functional>
namespace RigidBodyDynamics
{
namespace Math
{
typedef Eigen::Vector3d Vector3d; typedef Eigen::Matrix3d Matrix3d; typedef Eigen::VectorXd VectorNd; typedef Eigen::MatrixXd MatrixNd;
typedef Eigen::Matrix<double,6,1> SpatialVector; typedef Eigen::Matrix<double,6,6> SpatialMatrix; typedef Eigen::Matrix<double,6,3> Matrix63;
inline Matrix3d VectorCrossMatrix(const Vector3d&v){ Matrix3d m; m<<0,-v(2),v(1), v(2),0,-v(0), -v(1),v(0),0; return m; }
struct SpatialTransform
{
    Matrix3d E; Vector3d r;
    SpatialTransform():E(Matrix3d::Identity()),r(Vector3d::Zero()){}
    SpatialTransform(const Matrix3d&e,const Vector3d&p):E(e),r(p){}
    SpatialVector apply(const SpatialVector&v)const{ Vector3d w=v.head<3>(),l=v.tail<3>(); SpatialVector o; o<<E*w,E*(l-r.cross(w)); return o; }
    SpatialTransform inverse()const{ return SpatialTransform(E.transpose(),-(E*r)); }
    SpatialMatrix toMatrix()const{ SpatialMatrix m=SpatialMatrix::Zero(); m.topLeftCorner<3,3>()=E; m.bottomRightCorner<3,3>()=E; m.bottomLeftCorner<3,3>()=-E*VectorCrossMatrix(r); return m; }
    SpatialTransform operator*(const SpatialTransform&X)const{ return SpatialTransform(E*X.E,X.r+X.E.transpose()*r); }
};
}
using namespace Math;
enum JointType{ JointTypeUndefined=0, JointTypeRevolute, JointTypePrismatic, JointTypeEulerZYX, JointTypeEulerXYZ, JointTypeTranslationXYZ, JointTypeFixed, JointType1DoF, JointTypeCustom };
struct Body{ double mMass; Vector3d mCenterOfMass; Body():mMass(0),mCenterOfMass(Vector3d::Zero()){} Body(double m,const Vector3d&c):mMass(m),mCenterOfMass(c){} };
struct FixedBody{ double mMass; Vector3d mCenterOfMass; unsigned int mMovableParent; SpatialTransform mParentTransform; SpatialTransform mBaseTransform; };
struct CustomJoint{ unsigned int mDoFCount; MatrixNd S; virtual void jcalc(SpatialTransform&XJ,const double*q)=0; virtual ~CustomJoint(){} };
struct Joint
{
    JointType mJointType; unsigned int mDoFCount; unsigned int q_index; unsigned int custom_joint_index; std::vector<SpatialVector> axes;
    Joint(JointType t=JointTypeUndefined):mJointType(t),mDoFCount(t==JointTypeEulerZYX||t==JointTypeEulerXYZ||t==JointTypeTranslationXYZ?3:0),q_index(0),custom_joint_index(0){}
    explicit Joint(const std::vector<SpatialVector>&a):mJointType(JointType1DoF),mDoFCount(a.size()),q_index(0),custom_joint_index(0),axes(a){}
};
struct Model
{
    std::vector<unsigned int> lambda; std::vector<Body> mBodies; std::vector<Joint> mJoints; std::vector<SpatialTransform> X_T,X_lambda,X_base; std::vector<SpatialVector> S; std::vector<Matrix63> multdof3_S;
    std::vector<CustomJoint*> mCustomJoints; std::vector<std::shared_ptr<CustomJoint> > owned; std::vector<FixedBody> mFixedBodies; unsigned int fixed_body_discriminator; unsigned int dof_count,q_size,qdot_size; unsigned int previously_added_body_id;
    std::map<std::string,unsigned int> mBodyNameMap;
    Model():fixed_body_discriminator(std::numeric_limits<unsigned int>::max()/2),dof_count(0),q_size(0),qdot_size(0),previously_added_body_id(0)
    { lambda.push_back(0); mBodies.push_back(Body()); mJoints.push_back(Joint()); X_T.push_back(SpatialTransform()); X_lambda.push_back(SpatialTransform()); X_base.push_back(SpatialTransform()); S.push_back(SpatialVector::Zero()); multdof3_S.push_back(Matrix63::Zero()); mBodyNameMap["ROOT"]=0; }
    bool IsFixedBodyId(unsigned int id)const{ return id>=fixed_body_discriminator&&id<std::numeric_limits<unsigned int>::max()&&id-fixed_body_discriminator<mFixedBodies.size(); }
    unsigned int GetBodyId(const char*name)const{ auto i=mBodyNameMap.find(name); return i==mBodyNameMap.end()?std::numeric_limits<unsigned int>::max():i->second; }
    static void join(Body&to,const SpatialTransform&X,const Body&b){ double m=to.mMass+b.mMass; if(m!=0){ Vector3d c=X.E.transpose()*b.mCenterOfMass+X.r; to.mCenterOfMass=(to.mMass*to.mCenterOfMass+b.mMass*c)/m; to.mMass=m; } }
    unsigned int AddBody(unsigned int parent,const SpatialTransform&frame,const Joint&joint,const Body&body,const std::string&name="",std::shared_ptr<CustomJoint> custom=std::shared_ptr<CustomJoint>())
    {
        unsigned int id;
        if(joint.mJointType==JointTypeFixed)
        {
            FixedBody f; f.mMass=body.mMass; f.mCenterOfMass=body.mCenterOfMass; f.mMovableParent=parent; f.mParentTransform=frame;
            if(IsFixedBodyId(parent)){ const FixedBody&p=mFixedBodies[parent-fixed_body_discriminator]; f.mMovableParent=p.mMovableParent; f.mParentTransform=frame*p.mParentTransform; }
            join(mBodies[f.mMovableParent],f.mParentTransform,body); mFixedBodies.push_back(f); id=fixed_body_discriminator+mFixedBodies.size()-1;
        }
        else
        {
            if(joint.mJointType==JointType1DoF&&joint.mDoFCount>1)
            {
                for(size_t i=0;i+1<joint.axes.size();++i){ parent=AddBody(parent,i==0?frame:SpatialTransform(),Joint(std::vector<SpatialVector>(1,joint.axes[i])),Body()); }
                return AddBody(parent,SpatialTransform(),Joint(std::vector<SpatialVector>(1,joint.axes.back())),body,name);
            }
            SpatialTransform f=frame; unsigned int p=parent; if(IsFixedBodyId(parent)){ const FixedBody&b=mFixedBodies[parent-fixed_body_discriminator]; p=b.mMovableParent; f=frame*b.mParentTransform; }
            Joint j=joint; j.q_index=q_size; SpatialVector s=SpatialVector::Zero();
            if(j.mJointType==JointType1DoF){ s=j.axes[0]; if(s.tail<3>().isZero(0)) j.mJointType=JointTypeRevolute; else if(s.head<3>().isZero(0)) j.mJointType=JointTypePrismatic; }
            if(j.mJointType==JointTypeCustom){ j.custom_joint_index=mCustomJoints.size(); owned.push_back(custom); mCustomJoints.push_back(custom.get()); j.mDoFCount=0; q_size+=custom->mDoFCount; } // RBDL keeps the count in the custom joint
            else q_size+=j.mDoFCount;
            dof_count=qdot_size=q_size;
            lambda.push_back(p); mBodies.push_back(body); mJoints.push_back(j); X_T.push_back(f); X_lambda.push_back(SpatialTransform()); X_base.push_back(SpatialTransform()); S.push_back(s); multdof3_S.push_back(Matrix63::Zero()); id=mBodies.size()-1;
        }
        if(name!="") mBodyNameMap[name]=id; previously_added_body_id=id; return id;
    }
};
inline Matrix3d stubRot(const Vector3d&a,double q){ return Eigen::AngleAxisd(-q,a).toRotationMatrix(); } // coordinates of the parent -> of the rotated frame
inline void UpdateKinematicsCustom(Model&m,const VectorNd*Q,const VectorNd*,const VectorNd*)
{
    if(!Q) return; const VectorNd&q=*Q; eigen_assert((unsigned)q.size()>=m.q_size);
    for(size_t i=1;i<m.mBodies.size();++i)
    {
        const Joint&j=m.mJoints[i]; SpatialTransform X; const double*v=q.data()+j.q_index;
        switch(j.mJointType)
        {
            case JointTypeRevolute: X.E=stubRot(m.S[i].head<3>(),v[0]); break;
            case JointTypePrismatic: X.r=m.S[i].tail<3>()*v[0]; break;
            case JointTypeTranslationXYZ: X.r=Vector3d(v[0],v[1],v[2]); m.multdof3_S[i].setZero(); m.multdof3_S[i].bottomRows<3>().setIdentity(); break;
            case JointTypeEulerZYX: { Matrix3d z=stubRot(Vector3d::UnitZ(),v[0]),y=stubRot(Vector3d::UnitY(),v[1]),x=stubRot(Vector3d::UnitX(),v[2]); X.E=x*y*z; m.multdof3_S[i].setZero(); m.multdof3_S[i].col(0).head<3>()=x*y*Vector3d::UnitZ(); m.multdof3_S[i].col(1).head<3>()=x*Vector3d::UnitY(); m.multdof3_S[i].col(2).head<3>()=Vector3d::UnitX(); break; }
            case JointTypeEulerXYZ: { Matrix3d x=stubRot(Vector3d::UnitX(),v[0]),y=stubRot(Vector3d::UnitY(),v[1]),z=stubRot(Vector3d::UnitZ(),v[2]); X.E=z*y*x; m.multdof3_S[i].setZero(); m.multdof3_S[i].col(0).head<3>()=z*y*Vector3d::UnitX(); m.multdof3_S[i].col(1).head<3>()=z*Vector3d::UnitY(); m.multdof3_S[i].col(2).head<3>()=Vector3d::UnitZ(); break; }
            case JointTypeCustom: m.mCustomJoints[j.custom_joint_index]->jcalc(X,v); break;
            default: break;
        }
        m.X_lambda[i]=X*m.X_T[i]; m.X_base[i]=m.X_lambda[i]*m.X_base[m.lambda[i]];
    }
}
}
