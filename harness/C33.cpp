// PBT-rule: the logged object is not a default constructed one and its log has at least three entries
// PBT-assume: RBDL and the QP libraries are stand-ins | finite numbers or NaN, compared with the precision of 14 digits that the log format offers
// PBT-scale: 6
// PBT-flags: -I{V}/lib/stubs -DPBT_REPO="{R}"
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/config_msgpack.h"
#include <set>
#include <map>
#include <sstream>
#include "core_gen.h"
#include "humoto/kktsolver.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include "wpg_gen.h"
#include "pepper_gen.h"
#include "pepper_ik_gen.h"
typedef humoto::LogEntryName Name;
struct Val { bool text; std::string s; std::vector<double> x; int r,c; Val():text(false),r(0),c(0){} };
typedef std::vector<std::pair<std::string,Val> > Want;
// ---- what is expected
struct W { Want w; std::string p; explicit W(const std::string&p_=""):p(p_){}
    static std::string join(const std::string&a,const std::string&b){ return a.empty()?b:b.empty()?a:a+"."+b; }
    Val&put(const std::string&n){ w.push_back(std::make_pair(join(p,n),Val())); return w.back().second; }
    template<class T> typename std::enable_if<std::is_arithmetic<T>::value||std::is_enum<T>::value>::type add(const std::string&n,T v){ Val&q=put(n); q.x.push_back((double)v); q.r=q.c=1; }
    void add(const std::string&n,const std::string&s){ Val&q=put(n); q.text=true; q.s=s; }
    template<class D> void add(const std::string&n,const Eigen::MatrixBase<D>&m){ Val&q=put(n); q.r=m.rows(); q.c=m.cols(); for(int i=0;i<q.r;++i) for(int j=0;j<q.c;++j) q.x.push_back((double)m(i,j)); }
    template<class T> void add(const std::string&n,const std::vector<T>&v){ Val&q=put(n); q.r=v.size(); q.c=1; for(auto&x:v) q.x.push_back((double)x); }
    template<class T> void sub(const std::string&n,const T&t){ std::string o=p; p=join(p,n); want(*this,t); p=o; }
    template<class T> void sub(const std::string&n,size_t i,const T&t){ std::string o=p; p=join(p,n)+"{"+std::to_string(i+1)+"}"; want(*this,t); p=o; }
};
#define ADD(x) w.add(#x,t.x##_);
namespace rb=humoto::rigidbody; namespace wk=humoto::walking; namespace w4=humoto::wpg04; namespace pm=humoto::pepper_mpc; namespace hc=humoto::constraints;
inline void want(W&w,const rb::PointMassState&t){ ADD(position) ADD(velocity) ADD(acceleration) }
inline void want(W&w,const rb::RotaryState&t){ ADD(rpy) ADD(angular_velocity) ADD(angular_acceleration) }
inline void want(W&w,const rb::RigidBodyState&t){ ADD(position) ADD(velocity) ADD(acceleration) ADD(rpy) ADD(angular_velocity) ADD(angular_acceleration) }
inline void want(W&w,const rb::RigidBodyPose&t){ ADD(position) ADD(rpy) }
inline void want(W&w,const fg::Foot&f){ w.add("max_step_len",f.max_step_len); w.add("min_feet_dist",f.min_feet_dist); w.add("max_feet_dist",f.max_feet_dist); w.add("feet_dist_default",f.feet_dist_default); w.add("foot_length",f.foot_length); w.add("foot_width",f.foot_width); }
inline void want(W&w,const wk::Stance&t){ ADD(type) ADD(previous_nonds_stance_type) ADD(previous_nontds_stance_type) ADD(subtype) ADD(duration_ms) ADD(total_duration_ms) }
inline void want(W&w,const wk::StanceFiniteStateMachine&t){ w.sub("current_stance",t.current_stance_); ADD(ss_states_to_termination) w.add("current_time",t.current_time_ms_); ADD(is_tds_started) }
inline void want(W&w,const humoto::Location&t){ ADD(offset) ADD(length) }
inline void want(W&w,const humoto::ActiveSetConstraints&a){ std::vector<int> v; for(size_t i=0;i<a.size();++i) v.push_back(a[i]); w.add("",v); }
inline void want(W&w,const humoto::ActiveSet&a){ for(size_t i=0;i<a.size();++i) w.sub("",i,a[i]); }
inline void want(W&w,const humoto::ViolationsConstraints&a){ std::vector<double> v,l,u; for(size_t i=0;i<a.size();++i){ v.push_back(a[i]); l.push_back(a.getLower(i)); u.push_back(a.getUpper(i)); } w.add("violations",v); w.add("lower_bound_diff",l); w.add("upper_bound_diff",u); }
inline void want(W&w,const humoto::Violations&a){ for(size_t i=0;i<a.size();++i) w.sub("",i,a[i]); }
inline void want(W&w,const humoto::Solution&t){ ADD(x) w.add("status",t.return_status_); }
inline void want(W&w,const hc::ContainerAB&t){ w.add("number_of_variables",t.getNumberOfVariables()); w.add("A",t.getA()); w.add("b",t.getB()); }
inline void want(W&w,const hc::ContainerAL&t){ w.add("number_of_variables",t.getNumberOfVariables()); w.add("A",t.getA()); w.add("lb",t.getLowerBounds()); }
inline void want(W&w,const hc::ContainerALU&t){ w.add("number_of_variables",t.getNumberOfVariables()); w.add("A",t.getA()); w.add("lb",t.getLowerBounds()); w.add("ub",t.getUpperBounds()); }
inline void want(W&w,const hc::ContainerILU&t){ w.add("number_of_variables",t.getNumberOfVariables()); w.add("A",t.getIndices()); w.add("lb",t.getLowerBounds()); w.add("ub",t.getUpperBounds()); }
inline void want(W&w,const humoto::QPConstraints_AB&t){ w.sub("equality_constraints",t.getEqualities()); }
inline void want(W&w,const humoto::QPConstraints_AB_AL&t){ w.sub("equality_constraints",t.getEqualities()); w.sub("inequality_constraints",t.getInequalities()); }
inline void want(W&w,const humoto::QPConstraints_ILU_ALU&t){ w.sub("bounds",t.getSimpleBounds()); w.sub("general_constraints",t.getGeneralConstraints()); w.add("lb",t.getSolutionLowerBounds()); w.add("ub",t.getSolutionUpperBounds()); }
inline void want(W&w,const humoto::QPObjective&t){ w.add("H",t.getHessian()); w.add("g",t.getGradient()); w.add("hessian_type",t.getHessianType()); w.add("status",t.getStatus()); }
template<class C> inline void want(W&w,const humoto::QPProblemBase<C>&t){ w.sub("objective",static_cast<const humoto::QPObjective&>(t)); w.sub("constraints",static_cast<const C&>(t)); }
// tasks: the description, gain, working sets and the constraint as it was given
struct TaskWant { const humoto::TaskBase*t; cg::TestTaskBase*b; cg::Ref r; std::string name; double gain; bool formed; humoto::ActiveSetConstraints actual,guess; };
inline void want(W&w,const TaskWant&t)
{
    w.add("id",t.name); if(t.r.body!=cg::I) w.add("gain",t.gain); w.sub("active_set_actual",t.actual); w.sub("active_set_guess",t.guess); w.add("number_of_variables",t.formed?t.r.n:0); if(!t.formed) return;
    if(t.r.simple()){ w.add("A",cg::iv(t.r.idx)); if(t.r.body==cg::GI) w.add("Agains",t.r.gains); } else { w.add("A",t.r.Araw); if(t.r.body==cg::AS) w.add("offset",t.r.offset); }
    if(t.r.bnd==cg::LU||t.r.bnd==cg::L) w.add("lb",t.r.lb); if(t.r.bnd==cg::LU||t.r.bnd==cg::U) w.add("ub",t.r.ub); if(t.r.bnd==cg::B) w.add("b",t.r.b);
}
inline void want(W&w,const w4::WalkState&t){ ADD(theta) ADD(step_height) ADD(cvel_ref) ADD(rotation) ADD(R_cvel_ref) ADD(fd_bounds) ADD(cop_bounds) w.sub("stance",static_cast<const wk::Stance&>(t)); }
inline void want(W&w,const w4::PreviewHorizonInterval&t){ ADD(state_index) ADD(omega) ADD(T) ADD(cvel_ref) }
inline void want(W&w,const w4::PreviewHorizon&t){ ADD(variable_steps_indices) for(size_t i=0;i<t.intervals_.size();++i) w.sub("interval",i,t.intervals_[i]); for(size_t i=0;i<t.walk_states_.size();++i) w.sub("state",i,t.walk_states_[i]); }
inline void want(W&w,const w4::ModelState&t){ ADD(stance_type) ADD(next_stance_type) w.sub("com_state",t.com_state_); w.sub("left_foot_state",t.feet_.getLeft()); w.sub("right_foot_state",t.feet_.getRight()); }
struct W4Model { const w4::Model&m; fg::Foot f; };
inline void want(W&w,const W4Model&t){ w.sub("foot_parameters",t.f); w.sub("state",t.m.state_); w.add("cstate",t.m.getCState()); w.add("current_support_position",t.m.current_support_position_); }
inline void want(W&w,const w4::MPCforWPG&t)
{
    w.sub("preview_horizon",t.preview_horizon_); w.add("R",t.R_.getRaw()); w.add("Rh",t.Rh_.getRaw()); ADD(V) ADD(V0) ADD(Vfp) ADD(vfp) ADD(S) ADD(s) ADD(Sdz) ADD(sdz)
    w.add("cop_profile",t.cop_profile); w.add("dcop_profile",t.dcop_profile); w.add("cstate_profile",t.cstate_profile); w.add("footpos_profile",t.footpos_profile);
}
inline void want(W&w,const pm::PreviewHorizonInterval&t){ ADD(base_height) ADD(body_height) ADD(base_mass) ADD(body_mass) ADD(T) ADD(T_ms) ADD(base_vel_ref) ADD(base_pos_ref) ADD(theta) ADD(rotation) ADD(body_bounds) ADD(cop_bounds) ADD(nominal_base_velocity_bounds) ADD(nominal_base_acceleration_bounds) }
inline void want(W&w,const pm::PreviewHorizon&t){ for(size_t i=0;i<t.intervals_.size();++i) w.sub("interval",i,t.intervals_[i]); }
inline void want(W&w,const pm::ModelState&t){ ADD(base_mass) ADD(body_mass) w.sub("base_state",t.base_state_); w.sub("body_state",t.body_state_); }
inline void want(W&w,const pm::Model&t){ w.sub("state",t.state_); w.add("mpc_state",t.getMPCState()); ADD(current_base_position) }
inline void want(W&w,const pm::MPCforMG&t){ w.sub("preview_horizon",t.preview_horizon_); w.add("R",t.R_.getRaw()); ADD(S) ADD(s) ADD(sp) ADD(Ap) ADD(sas) ADD(Aas) ADD(sps) ADD(Aps) ADD(sjs) ADD(Ajs) ADD(base_controls) ADD(body_controls) ADD(cstate_profile) w.add("jerk_profile",t.base_jerk_profile_); ADD(cop_profile) }
template<int F> inline void want(W&w,const ik::GeneralizedCoordinates<F>&t){ ADD(root_pose) ADD(joint_angles) }
inline void want(W&w,const ik::RobotCommand&t){ ADD(joint_angles) ADD(wheel_velocities) ADD(base_velocities) ADD(time_interval) }
template<int F> inline void want(W&w,const ik::Model<F>&t){ w.sub("state",t.getState()); }
// ---- what is in the log
static std::map<std::string,Val> parse(const std::string&t)
{
    std::map<std::string,Val> m; size_t p=0;
    while(p<t.size())
    {
        size_t e=t.find(" = ",p); PBT_CHECK(e!=std::string::npos&&t.substr(p,e-p).find('\n')==std::string::npos,"not an assignment: '"<<t.substr(p,60)<<"'"); std::string n=t.substr(p,e-p); p=e+3; Val v;
        if(t[p]=='\''){ size_t q=t.find("';\n",p+1); PBT_CHECK(q!=std::string::npos,"text of "<<n<<" does not end"); v.text=true; v.s=t.substr(p+1,q-p-1); p=q+3; }
        else
        {
            bool list=false; if(t.compare(p,4,"...\n")==0) p+=4; if(t[p]=='['){ list=true; ++p; } size_t q=t.find(list?"];\n":";\n",p); PBT_CHECK(q!=std::string::npos,"value of "<<n<<" does not end"); std::string b=t.substr(p,q-p); p=q+(list?3:2);
            if(list&&b.find_first_not_of(" ")==std::string::npos){ m[n]=v; continue; }
            std::stringstream rows(b); std::string row; while(std::getline(rows,row,';')){ std::stringstream cs(row); std::string c; int k=0; while(std::getline(cs,c,',')){ char*end; double x=strtod(c.c_str(),&end); while(*end==' ') ++end; PBT_CHECK(end!=c.c_str()&&!*end,"number in "<<n<<": '"<<c<<"'"); v.x.push_back(x); ++k; } PBT_CHECK(v.r==0||v.c==k,"rows of "<<n<<" have different lengths"); v.c=k; ++v.r; }
        }
        PBT_CHECK(m.find(n)==m.end(),"two entries are named '"<<n<<"'"); m[n]=v;
    }
    return m;
}
static std::string show(const Val&v){ std::ostringstream o; if(v.text){ o<<"'"<<v.s<<"'"; return o.str(); } o<<v.r<<"x"<<v.c<<" ["; for(size_t i=0;i<v.x.size()&&i<12;++i) o<<v.x[i]<<" "; o<<"]"; return o.str(); }
static bool same(const Val&a,const Val&b){ if(a.text!=b.text) return false; if(a.text) return a.s==b.s; if(a.x.size()!=b.x.size()||(!b.x.empty()&&(a.r!=b.r||a.c!=b.c))) return false; for(size_t i=0;i<b.x.size();++i) if(!(a.x[i]==b.x[i]||(a.x[i]!=a.x[i]&&b.x[i]!=b.x[i])||std::fabs(a.x[i]-b.x[i])<=1e-13*std::fabs(b.x[i]))) return false; return true; }
static void compare(const std::string&text,const Want&w,const std::string&what,const std::string&prefix="")
{
    std::map<std::string,Val> m=parse(text); std::set<std::string> names; for(auto&x:w){ names.insert(x.first); auto i=m.find(x.first); PBT_CHECK(i!=m.end(),what<<": nothing is logged as '"<<x.first<<"'"); PBT_CHECK(same(i->second,x.second),what<<": '"<<x.first<<"' is logged as "<<show(i->second)<<" instead of "<<show(x.second)); }
    for(auto&x:m) if(x.first.find('{',std::min(prefix.size(),x.first.size()))!=std::string::npos) PBT_CHECK(names.count(x.first),what<<": '"<<x.first<<"' does not exist in the object");
}
// ---- logging under any name
template<class T,class D> void check(pbt::Case&g,const T&t,const char*dflt,const D&d,const std::string&what)
{
    std::ostringstream os; static const char*parents[]={"","a","result{3}","x.y","solver"}; std::string parent=parents[g.range(0,4)],name=g.pick(std::vector<std::string>{"","n","left","q.r"}); int how=g.range(0,3); std::string prefix;
    if(how==3){ humoto::Logger&l=humoto::g_logger; l.initialize(os,0); try { t.log(); } catch(...) { l.initialize(std::cout); throw; } l.initialize(std::cout); prefix=dflt; }
    else { humoto::Logger l(os,(std::size_t)0); if(how==0){ t.log(l); prefix=dflt; } else if(how==1){ t.log(l,Name(parent)); prefix=W::join(parent,dflt); } else { t.log(l,Name(parent),name); prefix=W::join(parent,name); } }
    W w(prefix); want(w,d); g.note("logged",what).note("way",how); g.tag(what); if(w.w.size()>2) g.nontrivial(true); compare(os.str(),w.w,what,prefix);
}
template<class T> void check(pbt::Case&g,const T&t,const char*dflt,const std::string&what){ check(g,t,dflt,t,what); }
static double num(pbt::Case&g){ switch(g.range(0,5)){ case 0: return 0; case 1: return g.range(-5,5); case 2: return g.real(-1,1)*std::pow(10.,g.range(-12,12)); case 3: return g.chance(1,6)?std::numeric_limits<double>::quiet_NaN():1; default: return g.real(-100,100); } }
template<class M> void fill(pbt::Case&g,M&m){ for(int i=0;i<m.size();++i) m(i)=num(g); }
PBT_PROP(states,16000,200000)
{
    rb::RigidBodyState s; fill(g,s.position_); fill(g,s.velocity_); fill(g,s.acceleration_); fill(g,s.rpy_); fill(g,s.angular_velocity_); fill(g,s.angular_acceleration_);
    switch(g.range(0,6))
    {
        case 0: check(g,s,"rigid_body_state","state of a rigid body"); break;
        case 1: check(g,static_cast<const rb::PointMassState&>(s),"point_mass_state","state of a point mass"); break;
        case 2: check(g,static_cast<const rb::RotaryState&>(s),"rotary_state","rotary state"); break;
        case 3: { rb::RigidBodyPose p; p.position_=s.position_; p.rpy_=s.rpy_; check(g,p,"rigid_body_pose","pose"); std::ostringstream o; o.precision(17); o<<p; std::istringstream in(o.str()); std::string w; int k=0; while(in>>w){ PBT_CHECK(k<6,"pose written as '"<<o.str()<<"'"); double x=strtod(w.c_str(),0),y=k<3?p.position_(k):p.rpy_(k-3); ++k; PBT_CHECK(x==y||(x!=x&&y!=y),"pose written as '"<<o.str()<<"'"); } PBT_CHECK(k==6,"pose written as '"<<o.str()<<"'"); break; }
        case 4: { fg::Foot f=fg::gen(g); wk::RobotFootParameters p; fg::load(p,f); check(g,p,"robot_foot_parameters",f,"foot parameters"); break; }
        case 5: { wk::Stance t; t.type_=(wk::StanceType::Type)g.range(0,4); t.previous_nonds_stance_type_=(wk::StanceType::Type)g.range(0,4); t.previous_nontds_stance_type_=(wk::StanceType::Type)g.range(0,4); t.subtype_=(wk::StanceSubType::Type)g.range(0,2); t.duration_ms_=g.range(0,3000); t.total_duration_ms_=g.range(0,9000); check(g,t,"stance","stance"); break; }
        default: { wk::StanceFSMParameters p; p.num_steps_=g.range(2,6); wk::StanceFiniteStateMachine f(static_cast<const wk::StanceFSMParameters&>(p)); for(int k=g.range(0,5);k>0;--k) f.shiftTime(100*g.range(1,6)); check(g,f,"stance_fsm","stance machine"); }
    }
}
template<class Q> static void qp(pbt::Case&g,humoto::OptimizationProblem&op,const humoto::SolutionStructure&s,const char*what){ Q q; try { op.getQPProblem(q,s,true); } catch(const std::exception&) { g.discard(); } check(g,q,"qp_problem",what); }
template<class S> static std::string solverLog(pbt::Case&g,const S&s,std::string&prefix,const char*dflt){ std::ostringstream os; { humoto::Logger l(os,(std::size_t)0); if(g.flip()){ s.log(l); prefix=dflt; } else { s.log(l,Name("p"),"n"); prefix="p.n"; } } return os.str(); }
PBT_PROP(hierarchies,16000,200000)
{
    using namespace cg; int n=g.range(1,4),L=g.range(1,3); humoto::OptimizationProblem op; Model m; Problem pr; pr.setVars(n); humoto::Solution sol; op.reset(L); std::vector<TaskWant> ts; std::vector<std::vector<int> > lev(L); std::vector<TP> tp;
    for(int l=0;l<L;++l) for(int k=g.range(1,3);k>0;--k){ TaskWant w; w.r=genRef(g,n,false,1,3,l==L-1&&g.chance(4,5)?g.range(I,AS):-1,l==L-1&&g.chance(4,5)?g.range(B,B0):-1); w.name="task "+std::to_string(ts.size()); w.gain=0; w.formed=false; TestTaskBase*b=0; TP p=makeTask(w.r,w.name,&b); w.t=p.get(); w.b=b; if(g.flip()){ double x=g.real(-3,3); if(b->gain(x)) w.gain=x; } tp.push_back(p); lev[l].push_back(ts.size()); ts.push_back(w); op.pushTask(p,l); }
    humoto::ActiveSet guess; bool wg=g.flip(); if(wg) op.form(sol,guess,m,pr); else op.form(sol,m,pr); bool back=g.flip(); humoto::ActiveSet as; op.initializeActiveSet(as); for(size_t l=0;l<as.size();++l) for(size_t i=0;i<as[l].size();++i) as[l][i]=(humoto::ConstraintActivationType::Type)g.range(1,4); if(back) op.processActiveSet(as);
    for(int l=0;l<L;++l) for(auto&q:op[l].tasks_) for(auto&w:ts) if(w.t==q.ptr_.get()){ w.formed=true; w.guess=w.b->guessed(); w.actual=w.b->actual(); }
    switch(g.range(0,8))
    {
        case 0: { int i=g.range(0,(int)ts.size()-1); check(g,*ts[i].t,"task",ts[i],"task "+ts[i].r.name().substr(0,4)); break; }
        case 1: { std::ostringstream os; std::string p=g.flip()?"h":""; { humoto::Logger l(os,(std::size_t)0); op.log(l,Name(p)); } W w(W::join(p,"tasks")); for(int l=0;l<L;++l){ size_t i=0; for(auto&q:op[l].tasks_){ for(auto&t:ts) if(t.t==q.ptr_.get()){ W v(W::join(p,"tasks")+"{"+std::to_string(l+1)+"}{"+std::to_string(i+1)+"}"); v.sub("location",q.location_); want(v,t); w.w.insert(w.w.end(),v.w.begin(),v.w.end()); } ++i; } } g.tag("hierarchy"); g.nontrivial(true); compare(os.str(),w.w,"hierarchy"); break; }
        case 2: check(g,as,"active_set","active set"); break;
        case 3: { humoto::Violations v; humoto::Solution s; s=sol; fill(g,s.x_); for(int i=0;i<n;++i) if(!(std::fabs(s.x_[i])<1e3)) s.x_[i]=1; op.computeViolations(v,s); check(g,v,"violations","violations"); break; }
        case 4: { fill(g,sol.x_); sol.return_status_=(humoto::SolverStatus::Status)g.range(0,3); check(g,sol,"solution","solution"); break; }
        case 5: case 6:
        {
            bool eq=true,obj=true; for(int l=0;l<L;++l) for(int i:lev[l]) if(!ts[i].r.eq()){ (l==L-1?obj:eq)=false; } bool gi=false; for(auto&t:ts) if(t.r.body==GI) gi=true; if(!obj||L>2) g.discard();
            switch(g.range(0,2)){ case 0: if(!eq) g.discard(); qp<humoto::QPProblem_AB>(g,op,sol,"QP with equalities"); break; case 1: qp<humoto::QPProblem_AB_AL>(g,op,sol,"QP with one-sided constraints"); break; default: if(gi) g.discard(); qp<humoto::QPProblem_ILU_ALU>(g,op,sol,"QP with two-sided constraints"); } break;
        }
        default:
        {
            bool eq=true,obj=true,gi=false; for(int l=0;l<L;++l) for(int i:lev[l]) if(!ts[i].r.eq()){ (l==L-1?obj:eq)=false; } for(auto&t:ts) if(t.r.body==GI) gi=true; if(!obj||L>2) g.discard(); int k=g.range(0,3); if((k==0&&!eq)||((k==1||k==2)&&gi)) g.discard();
            fakeqp::script().calls.clear(); VectorXd x=genVec(g,n,true); int it=g.range(1,50); fakeqp::script().answer=[&](const fakeqp::Call&c){ fakeqp::Answer a; a.status=0; a.x=x; a.wsb.assign(c.qp.lb.size()?c.qp.lb.size():n,0); a.wsc.assign(c.qp.A.rows(),0); a.iterations=it; return a; };
            std::string text,prefix; W w; auto both=[&](auto&q){ w=W(W::join(prefix,"qp_problem")); w.sub("constraints",q); };
            switch(k)
            {
                case 0: { humoto::kktsolver::Solver s; humoto::QPProblem_AB q; op.getQPProblem(q,sol); try { s.solve(sol,op); } catch(const pbt::Discard&){ throw; } catch(const std::exception&){ g.discard(); } text=solverLog(g,s,prefix,"kktsolver"); both(static_cast<const humoto::QPConstraints_AB&>(q)); break; }
                case 1: { humoto::qpoases::Solver s; humoto::qpoases::Solution o; op.form(o,m,pr); humoto::QPProblem_ILU_ALU q; try { op.getQPProblem(q,o); } catch(const std::exception&) { g.discard(); } s.solve(o,op); text=solverLog(g,s,prefix,"qpoases"); both(static_cast<const humoto::QPConstraints_ILU_ALU&>(q)); w.p=W::join(prefix,"qp_problem"); w.add("objective.H",q.getHessian()); w.add("objective.g",q.getGradient()); break; }
                case 2: { humoto::qpmad::Solver s; humoto::qpmad::Solution o; op.form(o,m,pr); humoto::QPProblem_ILU_ALU q; try { op.getQPProblem(q,o); } catch(const std::exception&) { g.discard(); } s.solve(o,op); text=solverLog(g,s,prefix,"qpmad"); both(static_cast<const humoto::QPConstraints_ILU_ALU&>(q)); break; }
                default: { humoto::quadprogpp::Solver s; humoto::quadprogpp::Solution o; op.form(o,m,pr); humoto::QPProblem_AB_AL q; op.getQPProblem(q,o); s.solve(o,op); text=solverLog(g,s,prefix,"quadprogpp"); both(static_cast<const humoto::QPConstraints_AB_AL&>(q)); break; }
            }
            g.tag("solver"); g.nontrivial(true); compare(text,w.w,"solver");
        }
    }
}
struct OasesSol { const humoto::qpoases::Solution&s; }; inline void want(W&w,const OasesSol&t){ want(w,static_cast<const humoto::Solution&>(t.s)); w.add("number_of_iterations",t.s.number_of_iterations_); w.add("qpoases_return_value",t.s.qpoases_return_value_); }
struct MadSol { const humoto::qpmad::Solution&s; }; inline void want(W&w,const MadSol&t){ want(w,static_cast<const humoto::Solution&>(t.s)); w.add("qpmad_return_value",t.s.qpmad_return_value_); }
struct ProgSol { const humoto::quadprogpp::Solution&s; }; inline void want(W&w,const ProgSol&t){ want(w,static_cast<const humoto::Solution&>(t.s)); w.add("quadprogpp_return_value",t.s.quadprogpp_return_value_); }
PBT_PROP(solutions,6000,60000)
{
    cg::Problem pr; pr.setVars(g.range(1,5)); auto gen=[&](humoto::Solution&s){ s.initialize(pr.getSolutionStructure(),0.0); fill(g,s.x_); s.return_status_=(humoto::SolverStatus::Status)g.range(0,3); };
    switch(g.range(0,2)){ case 0: { humoto::qpoases::Solution s; gen(s); s.number_of_iterations_=g.range(0,99); s.qpoases_return_value_=(decltype(s.qpoases_return_value_))g.range(0,3); check(g,s,"solution",OasesSol{s},"solution of qpOASES"); break; } case 1: { humoto::qpmad::Solution s; gen(s); s.qpmad_return_value_=(decltype(s.qpmad_return_value_))g.range(0,3); check(g,s,"solution",MadSol{s},"solution of qpmad"); break; } default: { humoto::quadprogpp::Solution s; gen(s); s.quadprogpp_return_value_=num(g); check(g,s,"solution",ProgSol{s},"solution of QuadProg++"); } }
}
PBT_PROP(walking,3000,40000)
{
    wg::Scenario s; s.gen(g); if(s.mpc.update(s.model,s.fsm,s.wp)!=humoto::ControlProblemStatus::OK) g.discard(); wg::Horizon H=s.horizon(); if(!H.ok||s.mpc.getSolutionStructure().getNumberOfVariables()!=2*s.N+2*H.var.size()) g.discard(); if(g.chance(2,3)){ wg::VX c=s.cops(g,H),f=s.steps(g,H); s.mpc.getNextModelState(s.solution(c,f),s.fsm,s.model); }
    switch(g.range(0,4)){ case 0: check(g,s.mpc,"mpcwpg","walking controller"); break; case 1: check(g,s.mpc.preview_horizon_,"preview_horizon","horizon of the walking controller"); break; case 2: check(g,s.model,"model",W4Model{s.model,s.foot},"walking model"); break; case 3: check(g,s.model.state_,"model_state","state of the walking model"); break; default: if(g.flip()){ auto&v=s.mpc.preview_horizon_.walk_states_; check(g,v[g.range(0,(int)v.size()-1)],"walk_state","walk state"); } else { auto&v=s.mpc.preview_horizon_.intervals_; check(g,v[g.range(0,(int)v.size()-1)],"preview_interval","interval of the walking controller"); } }
}
PBT_PROP(mobile_base,3000,40000)
{
    pg::Scenario s; s.gen(g); if(s.mpc.update(s.q,s.model)!=humoto::ControlProblemStatus::OK) g.discard(); if(g.chance(2,3)) s.mpc.getNextModelState(s.solution(s.controls(g)),s.model);
    switch(g.range(0,4)){ case 0: check(g,s.mpc,"mpcmg","controller of the mobile base"); break; case 1: check(g,s.mpc.preview_horizon_,"preview_horizon","horizon of the mobile base"); break; case 2: check(g,s.model,"model","model of the mobile base"); break; case 3: check(g,s.model.state_,"model_state","state of the mobile base"); break; default: { auto&v=s.mpc.preview_horizon_.intervals_; check(g,v[g.range(0,(int)v.size()-1)],"preview_interval","interval of the mobile base"); } }
}
template<int F> static void humanoid(pbt::Case&g)
{
    Robot<F> r; r.gen(g); typename Robot<F>::GC s; r.genState(g,s); switch(g.range(0,2)){ case 0: check(g,s,"model_state","generalized coordinates"); break; case 1: { ik::RobotCommand c; c.joint_angles_.resize(g.range(1,20)); fill(g,c.joint_angles_); fill(g,c.wheel_velocities_); fill(g,c.base_velocities_); c.time_interval_=num(g); check(g,c,"robot_command","command"); break; } default: r.m->updateState(s); check(g,*r.m,"model","humanoid model"); }
}
PBT_PROP(humanoids,1500,20000){ switch(g.range(0,2)){ case 0: humanoid<TORSO>(g); break; case 1: humanoid<TIBIA>(g); break; default: humanoid<PLANAR>(g); } }
// settings of tasks, also of those that were never formed
struct TaskSettings { std::string id; double gain; std::vector<std::pair<std::string,double> > k; std::vector<std::pair<std::string,std::string> > text; std::vector<std::pair<std::string,Eigen::VectorXd> > v; };
inline void want(W&w,const TaskSettings&t){ w.add("id",t.id); w.add("gain",t.gain); for(auto&x:t.k) w.add(x.first,x.second); for(auto&x:t.text) w.add(x.first,x.second); for(auto&x:t.v) w.add(x.first,x.second); w.add("number_of_variables",0); std::vector<int> e; w.add("active_set_guess",e); w.add("active_set_actual",e); }
template<int F> static void taskSettings(pbt::Case&g)
{
    double a=g.flip()?1:g.real(-5,5),b=g.flip()?1:g.real(-5,5); int flags=g.range(1,7); std::string tag=g.pick(std::vector<std::string>{"torso","","Head","l_wrist"}); std::string what; humoto::TaskSharedPointer t; TaskSettings s; s.gain=a; Eigen::Vector3d rpy; fill(g,rpy); using namespace ik;
    switch(g.range(0,8))
    {
        case 0: what="TaskBaseCoMTracking"; t.reset(new TaskBaseCoMTracking<F>(a,b)); s.k={{"k_position_gain",b}}; break;
        case 1: what="TaskBodyCoMTracking"; t.reset(new TaskBodyCoMTracking<F>(a,b,flags)); s.k={{"k_position_gain",b},{"axis_flag",flags}}; break;
        case 2: what="TaskBaseOrientation"; t.reset(new TaskBaseOrientation<F>(a,b)); s.k={{"k_orientation_gain",b}}; break;
        case 3: { what="TaskJointsReference"; t.reset(new TaskJointsReference<F>(a,b)); s.k={{"k_position_gain",b}}; typename ik::ModelDescription<F>::JointAnglesVector q; ik::ModelDescription<F>::getDefaultJointAngles(q); s.v.push_back(std::make_pair("joint_angles_reference",Eigen::VectorXd(q))); break; }
        case 4: what="TaskTagOrientation_"+tag; t.reset(new TaskTagOrientation<F>(tag,rpy,a,b)); s.k={{"k_orientation_gain",b}}; s.text={{"tag_string_id",tag}}; s.v.push_back(std::make_pair("reference_rpy",Eigen::VectorXd(rpy))); break;
        case 5: what="TaskTagAngularVelocity_"+tag; t.reset(new TaskTagAngularVelocity<F>(tag,a,b)); s.k={{"k_angular_velocity_gain",b}}; s.text={{"tag_string_id",tag}}; break;
        case 6: what="TaskTagCompleteVelocity_"+tag; t.reset(new TaskTagCompleteVelocity<F>(tag,a,b)); s.k={{"k_complete_velocity_gain",b}}; s.text={{"tag_string_id",tag}}; break;
        case 7: what="TaskTagPose_"+tag; t.reset(new TaskTagPose<F>(tag,a,b)); s.k={{"k_pose_gain",b}}; s.text={{"tag_string_id",tag}}; break;
        default: what="TaskTagPose3Dof_"+tag; t.reset(new TaskTagPose3Dof<F>(tag,a,b)); s.k={{"k_pose_gain",b}}; s.text={{"tag_string_id",tag}}; break;
    }
    s.id=t->getDescription(); PBT_CHECK(!s.id.empty(),"a task without a description"); if(g.chance(1,3)){ s.id="my task"; t->setDescription(s.id); }
    g.nontrivial(a!=1&&b!=1); check(g,*t,"task",s,what.substr(0,what.find('_')));
}
PBT_PROP(task_settings,3000,40000){ switch(g.range(0,2)){ case 0: taskSettings<TORSO>(g); break; case 1: taskSettings<TIBIA>(g); break; default: taskSettings<PLANAR>(g); } }
// containers of constraints on their own
PBT_PROP(containers,3000,40000)
{
    int n=g.range(1,4),m=g.range(1,4); Eigen::MatrixXd A(m,n); fill(g,A); Eigen::VectorXd a(m),b(m); fill(g,a); fill(g,b); g.nontrivial(true);
    switch(g.range(0,3)){
        case 0: { hc::ContainerAB c; c.reset(m,n); c.getA()=A; c.getB()=a; check(g,c,"constraints","container of equalities"); break; }
        case 1: { hc::ContainerAL c; c.reset(m,n); c.getA()=A; c.getLowerBounds()=a; check(g,c,"constraints","container of lower bounds"); break; }
        case 2: { hc::ContainerALU c; c.reset(m,n); c.getA()=A; c.getLowerBounds()=a; c.getUpperBounds()=b; check(g,c,"constraints","container of two-sided constraints"); break; }
        default: { hc::ContainerILU c; c.reset(m,n); for(int i=0;i<m;++i) c.getIndices()(i)=g.range(0,n-1); c.getLowerBounds()=a; c.getUpperBounds()=b; check(g,c,"constraints","container of bounds"); } }
}
PBT_MAIN
