// PBT-rule: a moved configuration (at least one root coordinate and several joints differ from zero)
// PBT-assume: RBDL is a stand-in with its documented conventions, validated against the reference values of the repository (pepper_ik/tests/regression_test_000.ref) | wheel velocities are examined for a base that stands upright | limits are examined at a distance of more than 1e-6 from the limit
// PBT-scale: 6
// PBT-flags: -I{V}/lib/stubs -DPBT_REPO="{R}"
#include "pepper_ik_gen.h"
template<int F> void checkModel(const Robot<F>&r,const typename Robot<F>::GC&s)
{
    const ik::Model<F>&m=*r.m; FK k=r.fk(s); const double tol=1e-9; Mass b=r.base(k),c=r.body(k),a=total(r.t,k,[](size_t){ return true; });
    PBT_CHECK(std::fabs(m.getBaseMass()-b.m)<1e-9&&std::fabs(m.getBodyMass()-c.m)<1e-9&&std::fabs(m.getMass()-a.m)<1e-9,"masses "<<m.getBaseMass()<<" "<<m.getBodyMass()<<" "<<m.getMass()<<" instead of "<<b.m<<" "<<c.m<<" "<<a.m);
    pbt::checkMat(m.getBaseCoM(),b.mc/b.m,"centre of mass of the base",tol,10); pbt::checkMat(m.getBodyCoM(),c.mc/c.m,"centre of mass of the body",tol,10); pbt::checkMat(m.getCoM(),a.mc/a.m,"centre of mass",tol,10);
    MX J; m.getBaseCoMJacobian(J); pbt::checkMat(J,b.mJ/b.m,"jacobian of the centre of mass of the base",tol,10); m.getBodyCoMJacobian(J); pbt::checkMat(J,c.mJ/c.m,"jacobian of the centre of mass of the body",tol,10); m.getCoMJacobian(J); pbt::checkMat(J,a.mJ/a.m,"jacobian of the centre of mass",tol,10);
    int f=r.foot(); pbt::checkMat(m.getBaseOrientation(),k.f[f].R,"orientation of the base",tol,1); pbt::checkMat(m.getBasePosition(),k.f[f].p,"position of the base",tol,10); m.getBaseOrientationJacobian(J); pbt::checkMat(J,k.jac(f,V3::Zero(),r.t.dof).topRows(3),"jacobian of the orientation of the base",tol,10);
    double yaw=m.getBaseYaw(); { M3 R=k.f[f].R; if(std::hypot(R(0,0),R(1,0))>1e-3){ double y=std::atan2(R(1,0),R(0,0)); double d=std::fabs(angle(yaw-y)); PBT_CHECK(d<1e-7||std::fabs(d-M_PI)<1e-7,"yaw "<<yaw<<" instead of "<<y); } }
    pbt::checkMat(m.getState().root_pose_,s.root_pose_,"root pose of the state",0,1); pbt::checkMat(m.getState().joint_angles_,s.joint_angles_,"joint angles of the state",0,1);
}
template<int F> void tags(pbt::Case&g,const Robot<F>&r,const typename Robot<F>::GC&s)
{
    FK k=r.fk(s); int i=g.range(0,r.t.n.size()-1); auto tag=r.m->getLinkTag(r.t.n[i].name); pbt::checkMat(r.m->getTagPosition(tag),k.f[i].p,"tag position",1e-9,10); pbt::checkMat(r.m->getTagOrientation(tag),k.f[i].R,"tag orientation",1e-9,1); MX J,E=k.jac(i,V3::Zero(),r.t.dof); r.m->getTagCompleteJacobian(J,tag); pbt::checkMat(J,E,"tag jacobian",1e-9,10); r.m->getTagOrientationJacobian(J,tag); pbt::checkMat(J,E.topRows(3),"tag orientation jacobian",1e-9,10);
    // the root of the torso: the frame in which the torso was attached when it was the root
    int t=r.t.find("torso"); humoto::rigidbody::RigidBodyPose p=r.m->getTorsoRootPose(); V3 l=F==TORSO?V3(0,0,0):V3(-2e-05,0,.139); pbt::checkMat(p.position_,k.point(t,l),"root of the torso",1e-9,10); pbt::checkMat(rpym(p.rpy_),k.f[t].R,"orientation of the torso",1e-7,1);
}
template<int F> void kinematics(pbt::Case&g)
{
    Robot<F> r; r.gen(g); typename Robot<F>::GC s; checkModel<F>(r,s); tags<F>(g,r,s); int n=g.range(1,3); for(int i=0;i<n;++i){ r.genState(g,s,g.flip()); r.m->updateState(s); checkModel<F>(r,s); tags<F>(g,r,s); g.nontrivial(!s.root_pose_.isZero()&&!s.joint_angles_.isZero(.1));
        // deviation from the desired motion
        ik::MotionParameters d,e; d.base_com_position_=vec(g,3); d.body_com_position_=vec(g,3); d.base_orientation_rpy_=vec(g,3); FK k=r.fk(s); M3 R=k.f[r.foot()].R; if(g.chance(1,4)){ V3 x=humoto::rigidbody::convertMatrixToEulerAngles(R,humoto::rigidbody::EulerAngles::RPY); d.base_orientation_rpy_=x; } r.m->getStateError(e,d); Mass b=r.base(k),c=r.body(k); pbt::checkMat(e.base_com_position_,d.base_com_position_-b.mc/b.m,"error of the centre of mass of the base",1e-9,10); pbt::checkMat(e.body_com_position_,d.body_com_position_-c.mc/c.m,"error of the centre of mass of the body",1e-9,10);
        // angle-axis error: sine of the angle times the axis
        M3 E=rpym(d.base_orientation_rpy_)*R.transpose(); V3 x(.5*(E(2,1)-E(1,2)),.5*(E(0,2)-E(2,0)),.5*(E(1,0)-E(0,1))); pbt::checkMat(e.base_orientation_rpy_,x,"error of the orientation of the base",1e-7,1); }
    PBT_CHECK(pbt::throwsCleanly([&]{ ik::Model<F> x; x.loadParameters("/nonexistent.urdf"); }),"a model that does not exist");
}
PBT_PROP(kinematics_torso,3000,60000){ kinematics<TORSO>(g); }
PBT_PROP(kinematics_tibia,3000,60000){ kinematics<TIBIA>(g); }
PBT_PROP(kinematics_planar,3000,60000){ kinematics<PLANAR>(g); }
template<class V> static V perturb(const V&v){ return v; }
// root pose: set and get, rejected motion of a planar root
template<int F> void rootPose(pbt::Case&g)
{
    typedef ik::ModelDescription<F> MD; Robot<F> r; r.gen(g); typename Robot<F>::GC s; r.genState(g,s); V3 p=vec(g,5),a=vec(g,3),x,y; if(g.chance(1,3)) a(1)=g.real(-1.5,1.5); g.nontrivial(true); bool planar=F==PLANAR; auto before=s;
    if(planar&&g.flip()){ p(2)=0; a(0)=a(1)=0; g.tag("legal planar pose"); }
    bool bp=planar&&p(2)!=0,ba=planar&&(a(0)!=0||a(1)!=0); PBT_CHECK(pbt::throwsCleanly([&]{ s.setRootPosition(p); })==bp,"vertical position of a planar root"); PBT_CHECK(pbt::throwsCleanly([&]{ s.setRootOrientation(a); })==ba,"inclination of a planar root"); pbt::checkMat(s.joint_angles_,before.joint_angles_,"joint angles",0,1);
    s.getRootPosition(x); s.getRootOrientation(y); if(!bp) pbt::checkMat(x,p,"root position",1e-12,5); if(!ba) pbt::checkMat(rpym(y),rpym(a),"root orientation",1e-7,1); VX v=s.asVector(); pbt::checkMat(v,r.q(s),"vector of coordinates",0,1);
    r.m->updateState(s); FK k=r.fk(s); int root=r.t.find(F==TORSO?"torso":"Tibia"); s.getRootPosition(x); s.getRootOrientation(y); pbt::checkMat(x,k.f[root].p,"position of the root link",1e-9,5); pbt::checkMat(rpym(y),k.f[root].R,"orientation of the root link",1e-7,1); checkModel<F>(r,s);
}
PBT_PROP(root_pose,6000,100000){ switch(g.range(0,2)){ case 0: rootPose<TORSO>(g); break; case 1: rootPose<TIBIA>(g); break; default: rootPose<PLANAR>(g); } }
// the description agrees with the shipped model
template<int F> void description(pbt::Case&g)
{
    typedef ik::ModelDescription<F> MD; IkTree t; t.from(shipped<F>()); PBT_CHECK(t.dof==MD::DOF_NUMBER&&MD::DOF_NUMBER==MD::ROOT_DOF_NUMBER+MD::JOINTS_DOF_NUMBER,"number of degrees of freedom"); auto&v=Desc<F>::joints(); PBT_CHECK((int)v.size()==MD::JOINTS_DOF_NUMBER,"number of joints"); typename Robot<F>::Model::Constraints c; typename Robot<F>::GC d; auto&j=v[g.range(0,v.size()-1)]; const D::Addons::StubJoint&u=shipped<F>().joints.at(j.first); g.note("joint",j.first); g.nontrivial(true);
    PBT_CHECK(t.jointOfDof[MD::ROOT_DOF_NUMBER+j.second]==j.first,"joint "<<j.first<<" has the index of "<<t.jointOfDof[MD::ROOT_DOF_NUMBER+j.second]); PBT_CHECK(std::fabs(c.joint_position_bounds_min_(j.second)-u.lower)<1e-5&&std::fabs(c.joint_position_bounds_max_(j.second)-u.upper)<1e-5,"position limits of "<<j.first<<" "<<c.joint_position_bounds_min_(j.second)<<" "<<c.joint_position_bounds_max_(j.second)<<" instead of "<<u.lower<<" "<<u.upper); PBT_CHECK(std::fabs(c.joint_velocity_bounds_(j.second)-u.velocity)<1e-4,"velocity limit of "<<j.first<<" "<<c.joint_velocity_bounds_(j.second)<<" instead of "<<u.velocity);
    PBT_CHECK(d.joint_angles_(j.second)>=u.lower&&d.joint_angles_(j.second)<=u.upper,"default angle of "<<j.first); typename MD::JointAnglesVector q; MD::getDefaultJointAngles(q); pbt::checkMat(q,d.joint_angles_,"default angles",0,1); if(F!=TORSO) PBT_CHECK(d.root_pose_.isZero(),"default root pose");
    // the mirror image of the robot has mirrored limits
    std::string n=j.first; if(n[0]=='L'||n[0]=='R'){ std::string o=n; o[0]=n[0]=='L'?'R':'L'; for(auto&w:v) if(o==w.first){ bool roll=o.find("Pitch")==std::string::npos; double lo=c.joint_position_bounds_min_(w.second),hi=c.joint_position_bounds_max_(w.second); PBT_CHECK(std::fabs(c.joint_position_bounds_min_(j.second)-(roll?-hi:lo))<1e-9&&std::fabs(c.joint_position_bounds_max_(j.second)-(roll?-lo:hi))<1e-9,"limits are not mirrored"); PBT_CHECK(std::fabs(d.joint_angles_(j.second)-(roll?-1:1)*d.joint_angles_(w.second))<1e-9,"default angles are not mirrored"); } }
}
template<int A,int B> void reorder(pbt::Case&g)
{
    typedef ik::ModelDescription<A> DA; typedef ik::ModelDescription<B> DB; MX M(g.range(1,4),DA::DOF_NUMBER); for(int i=0;i<M.rows();++i) for(int j=0;j<M.cols();++j) M(i,j)=100*i+j+1; MX N=M; ik::ModelDescriptionBase<MF::FIXED_WHEELS>::reorderJointsColumns<B,A>(N); PBT_CHECK(N.rows()==M.rows()&&N.cols()==DB::DOF_NUMBER,"size"); auto&a=Desc<A>::joints(); auto&b=Desc<B>::joints(); for(size_t i=0;i<a.size();++i) pbt::checkMat(N.col(DB::ROOT_DOF_NUMBER+b[i].second),M.col(DA::ROOT_DOF_NUMBER+a[i].second),std::string("column of ")+a[i].first,0,1); g.nontrivial(true);
}
PBT_PROP(model_description,6000,30000){ switch(g.range(0,8)){ case 0: case 1: description<TORSO>(g); break; case 2: case 3: description<TIBIA>(g); break; case 4: case 5: description<PLANAR>(g); break; case 6: reorder<TORSO,TIBIA>(g); break; case 7: reorder<PLANAR,TORSO>(g); break; default: reorder<TIBIA,PLANAR>(g); } }
// velocities of the wheels: rolling without slipping along their tangents
static V3 wheels(double vx,double vy,double w){ struct W{ const char*j; }; static const char*n[]={"WheelFL","WheelFR","WheelB"}; static std::map<std::string,D::Addons::StubJoint> u=D::Addons::stubParse(ikConfig()+"pepper_orig.urdf").joints; V3 o; for(int i=0;i<3;++i){ const D::Addons::StubJoint&j=u.at(n[i]); double th=j.rpy(2); double x=j.xyz(0),y=j.xyz(1); double px=vx-w*y,py=vy+w*x; /* velocity of the contact point */ o(i)=(px*std::sin(th)-py*std::cos(th))/.07; } return o; }
template<int F> bool admissible(const typename Robot<F>::Model::Constraints&c,const typename Robot<F>::GC&s,bool&close){ bool ok=true; for(int i=0;i<s.joint_angles_.size();++i){ double q=s.joint_angles_(i); if(!(q==q)){ ok=false; continue; } double d=std::min(q-c.joint_position_bounds_min_(i),c.joint_position_bounds_max_(i)-q); if(d<-1e-7){ ok=false; if(d>-1e-6) close=true; } } return ok; }
template<int F> void command(pbt::Case&g)
{
    typedef typename Robot<F>::GC GC; Robot<F> r; r.gen(g); typename Robot<F>::Model::Constraints c; GC a,b; r.genState(g,a); if(F!=PLANAR){ a.setRootPosition(vec(g,2)); a.setRootOrientation(V3(0,0,g.real(-3,3))); } b=a; double dt=g.pick(std::vector<double>{.01,.02,.1}); 
    ik::RobotCommand cmd; r.m->updateState(a); PBT_CHECK(pbt::throwsCleanly([&]{ r.m->getRobotCommand(cmd,dt); }),"a command without a saved state");
    bool close=false; bool fast=g.chance(1,4),wide=g.chance(1,4); for(int i=0;i<b.joint_angles_.size();++i){ double lim=c.joint_velocity_bounds_(i)*dt; b.joint_angles_(i)+=lim*g.real(-.99,.99); if(!wide) b.joint_angles_(i)=std::min(std::max(b.joint_angles_(i),c.joint_position_bounds_min_(i)),c.joint_position_bounds_max_(i)); } if(fast){ int i=g.range(0,b.joint_angles_.size()-1); b.joint_angles_(i)=a.joint_angles_(i)+(g.flip()?1:-1)*c.joint_velocity_bounds_(i)*dt*g.real(1.001,3); } if(g.chance(1,20)) b.joint_angles_(g.range(0,b.joint_angles_.size()-1))=std::numeric_limits<double>::quiet_NaN();
    double vx=g.real(-.4,.4),vy=g.real(-.4,.4),w=g.real(-1.5,1.5); if(g.chance(1,3)) vx=vy=0; if(g.chance(1,3)) w=0; V3 p,o; b.getRootPosition(p); b.getRootOrientation(o); p(0)+=vx*dt; p(1)+=vy*dt; o(2)+=w*dt; if(F==PLANAR){ b.setRootPosition(p); b.setRootOrientation(o); } else if(g.flip()){ b.setRootPosition(p); b.setRootOrientation(o); } else { vx=vy=w=0; }
    r.m->saveCurrentState(); r.m->updateState(b); bool nan=!(b.joint_angles_.sum()==b.joint_angles_.sum()); bool ok=admissible<F>(c,b,close); for(int i=0;i<b.joint_angles_.size();++i){ double v=std::fabs(b.joint_angles_(i)-a.joint_angles_(i))/dt-c.joint_velocity_bounds_(i); if(v>0) ok=false; if(std::fabs(v)<1e-6) close=true; }
    V3 bv,wv; if(!nan){ FK k0=r.fk(a),k1=r.fk(b); int f=r.foot(); bv=(k1.f[f].p-k0.f[f].p)/dt; M3 E=k1.f[f].R*k0.f[f].R.transpose(); bv(2)=.5*(E(1,0)-E(0,1))/dt; M3 R=k1.f[f].R; if(F!=TORSO){ double yaw=std::atan2(R(1,0),R(0,0)); wv=wheels(std::cos(yaw)*bv(0)+std::sin(yaw)*bv(1),-std::sin(yaw)*bv(0)+std::cos(yaw)*bv(1),bv(2)); PBT_CHECK(std::fabs(bv(2)-std::sin(w*dt)/dt)<1e-6,"the angular velocity of the base is its yaw rate"); } else { if(!ok) wv.setZero(); } 
        if(F!=TORSO) for(int i=0;i<3;++i){ double d=std::fabs(wv(i))-6.28319; if(d>0) ok=false; if(std::fabs(d)<3e-3*6) close=true; } }
    if(close){ g.discard(); return; }
    bool thrown=pbt::throwsCleanly([&]{ r.m->getRobotCommand(cmd,dt); }); g.tag(ok?"executable":"not executable"); g.nontrivial(true); if(F==TORSO){ if(!ok) PBT_CHECK(thrown,"a motion beyond the limits of the joints was accepted"); if(thrown) return; } else { PBT_CHECK(thrown==!ok,(ok?"a motion within the limits was rejected":"a motion beyond the limits was accepted")); if(thrown) return; }
    pbt::checkMat(cmd.joint_angles_,b.joint_angles_,"joint angles of the command",0,1); pbt::checkMat(cmd.base_velocities_,bv,"velocity of the base",1e-7,10); if(F!=TORSO) pbt::checkMat(cmd.wheel_velocities_,wv,"velocities of the wheels",1e-3,10); PBT_CHECK(cmd.time_interval_==dt,"interval of the command");
    // following the command from the saved state leads to the commanded one
    double part=g.chance(1,3)?1:g.chance(1,6)?-g.real(0,1):g.chance(1,6)?0:g.real(0,1); GC z=a; if(F!=PLANAR){ if(part>0){ PBT_CHECK(pbt::throwsCleanly([&]{ r.m->correct(a,cmd,part*dt); }),"correction of a floating base"); return; } }
    bool two=g.flip(); if(two) r.m->correct(a,cmd,part*dt); else { r.m->updateState(a); r.m->correct(cmd,part*dt); } if(part>0){ V3 q,e; z.getRootPosition(q); z.getRootOrientation(e); q(0)+=part*dt*bv(0); q(1)+=part*dt*bv(1); e(2)+=part*dt*bv(2); if(F==PLANAR){ z.setRootPosition(q); z.setRootOrientation(e); } z.joint_angles_=a.joint_angles_+part*(b.joint_angles_-a.joint_angles_); }
    pbt::checkMat(r.m->getState().root_pose_,z.root_pose_,"corrected root",1e-9,10); pbt::checkMat(r.m->getState().joint_angles_,z.joint_angles_,"corrected joints",1e-9,10); checkModel<F>(r,r.m->getState()); if(part==1){ pbt::checkMat(r.m->getState().joint_angles_,b.joint_angles_,"joints after the command",1e-9,10); if(F==PLANAR&&!r.own) pbt::checkMat(r.m->getState().root_pose_.head(2),b.root_pose_.head(2),"base after the command",1e-9,10); }
}
PBT_PROP(robot_command,9000,200000){ switch(g.range(0,3)){ case 0: command<TORSO>(g); break; case 1: command<TIBIA>(g); break; default: command<PLANAR>(g); } }
template<int F> void transition(pbt::Case&g)
{
    typedef typename Robot<F>::GC GC; Robot<F> r; r.gen(g); typename Robot<F>::Model::Constraints c; GC a,b; r.genState(g,a); b=a; double dt=g.pick(std::vector<double>{.01,.1}); bool close=false; for(int i=0;i<b.joint_angles_.size();++i){ b.joint_angles_(i)+=c.joint_velocity_bounds_(i)*dt*g.real(-.9,.9); b.joint_angles_(i)=std::min(std::max(b.joint_angles_(i),c.joint_position_bounds_min_(i)),c.joint_position_bounds_max_(i)); }
    V3 p,o; a.getRootPosition(p); a.getRootOrientation(o); int what=g.range(0,5); bool ok=true; int i=g.range(0,b.joint_angles_.size()-1); g.note("defect",what); g.nontrivial(true);
    if(what==1){ p(g.range(0,F==PLANAR?1:2))+=(g.flip()?1:-1)*g.real(.01,1); b.setRootPosition(p); ok=false; } if(what==2){ o(2)+=(g.flip()?1:-1)*g.real(.01,1); b.setRootOrientation(o); ok=false; } if(what==3){ b.joint_angles_(i)=g.flip()?c.joint_position_bounds_max_(i)+g.real(.001,1):c.joint_position_bounds_min_(i)-g.real(.001,1); ok=false; } if(what==4){ b.joint_angles_(i)=a.joint_angles_(i)+(g.flip()?1:-1)*c.joint_velocity_bounds_(i)*dt*g.real(1.01,2); ok=false; }
    bool own=g.flip(); if(own){ r.m->updateState(b); PBT_CHECK(pbt::throwsCleanly([&]{ r.m->checkStateTransition(a,dt); })==!ok,"transition to the current state"); PBT_CHECK(pbt::throwsCleanly([&]{ r.m->checkCurrentState(); })==!admissible<F>(c,b,close)||close,"current state"); } else PBT_CHECK(pbt::throwsCleanly([&]{ r.m->checkStateTransition(a,b,dt); })==!ok,"transition with "<<what);
}
PBT_PROP(state_transition,6000,100000){ switch(g.range(0,2)){ case 0: transition<TORSO>(g); break; case 1: transition<TIBIA>(g); break; default: transition<PLANAR>(g); } }
PBT_MAIN
