#pragma once
#include "rbdl.h"
#include <stdexcept>
namespace RigidBodyDynamics // used by the tests of the library only
{
namespace Utils { inline void CalcCenterOfMass(Model&,const VectorNd&,const VectorNd&,double&,Vector3d&,Vector3d*,Vector3d*,bool){ throw std::logic_error("not provided by the stand-in"); } }
inline void CalcPointJacobian(Model&,const VectorNd&,unsigned int,const Vector3d&,MatrixNd&,bool){ throw std::logic_error("not provided by the stand-in"); }
}
