// Uniform field access to all configurable classes: generated values, canonical
// textual form, and an independent msgpack encoder / decoder.
#pragma once
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/kktsolver.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#include "humoto/obstacle_avoidance.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include "humoto/pepper_ik.h"
#include <unistd.h>
#include <sys/stat.h>
#include <map>
#include <cinttypes>
namespace cf {
typedef humoto::config::msgpack::Reader Reader; typedef humoto::config::msgpack::Writer Writer;
inline std::string scratch()
{
    static std::string d; static pid_t owner=0;
    if(d.empty()||owner!=getpid()){ const char*s=getenv("PBT_SCRATCH"); std::string base=s&&*s?s:"."; d=base+"/cfg"+std::to_string(getpid()); owner=getpid(); }
    return d;
}
inline std::string file(const char*tag="a"){ return scratch()+tag; }
struct TmpFile { std::string name; explicit TmpFile(const char*tag="a"):name(file(tag)){} ~TmpFile(){ ::unlink(name.c_str()); } };
inline std::string num(double v){ if(v!=v) return "nan"; if(v==0) v=std::fabs(v); /* -0 is stored as the integer 0 by msgpack */ char b[64]; snprintf(b,sizeof b,"%a",v); return b; }
inline std::string quote(const std::string&s){ std::string o="\""; for(unsigned char c:s){ char b[8]; if(c>32&&c<127&&c!='"'){ o+=c; } else { snprintf(b,8,"\\x%02x",c); o+=b; } } return o+"\""; }
inline double value(pbt::Case&g)
{
    switch(g.range(0,7)){ case 0: return 0; case 1: return g.range(-5,5); case 2: return std::numeric_limits<double>::quiet_NaN(); case 3: return g.flip()?-0.0:1e-310; case 4: return g.flip()?std::numeric_limits<double>::infinity():-1e300; default: return g.real(-100,100); }
}
inline std::string text(pbt::Case&g,int maxlen=6){ std::string s; int n=g.chance(1,12)?g.range(0,300):g.range(0,maxlen); for(int i=0;i<n;++i) s+=g.chance(1,8)?(char)g.range(0,255):(char)('a'+g.range(0,25)); return s; }
// A value tree: what a configuration section means.
struct V { char k; double d; int64_t i; std::string s; std::vector<double> a; int r,c; bool fixed; std::vector<std::pair<std::string,V> > m,def; std::vector<std::vector<std::string> > ss; V():k('?'),d(0),i(0),r(0),c(0),fixed(false){} };
typedef std::vector<std::pair<std::string,V> > Obj;
inline std::string canon(const V&v);
inline std::string canon(const Obj&o){ std::vector<std::string> p; for(auto&x:o) p.push_back(x.first+"="+canon(x.second)); std::sort(p.begin(),p.end()); std::string s="{"; for(auto&x:p) s+=x+" "; return s+"}"; }
inline std::string canon(const V&v)
{
    std::string s;
    switch(v.k){ case 'd': return num(v.d); case 'i': return std::to_string(v.i); case 'u': return std::to_string((uint64_t)v.i); case 'b': return v.i?"true":"false"; case 's': return quote(v.s); case 'v': s="["; for(double x:v.a) s+=num(x)+","; return s+"]"; case 'n': s="["; for(double x:v.a) s+=std::to_string((int64_t)x)+","; return s+"]"; case 'm': s="("+std::to_string(v.r)+"x"+std::to_string(v.c)+")["; for(double x:v.a) s+=num(x)+","; return s+"]"; case 'o': return canon(v.m); case 't': for(auto&l:v.ss){ s+="<"; for(auto&x:l) s+=quote(x)+","; s+=">"; } return s; }
    return "?";
}
// ------------------------------------------------ visitors
enum Wide { WIDE_MIN=-2147483647-1, WIDE_MAX=2147483647 };
struct Fill { pbt::Case&g; bool any; explicit Fill(pbt::Case&g_,bool any_=true):g(g_),any(any_){}
    double val(){ return any?value(g):g.real(-10,10); }
    void operator()(const char*,double&x){ x=val(); }
    void operator()(const char*,std::size_t&x){ x=g.chance(1,6)?(std::size_t)g.draw(~0ULL):(std::size_t)g.range(0,3000); }
    void operator()(const char*,std::ptrdiff_t&x){ x=g.chance(1,6)?(std::ptrdiff_t)g.draw(~0ULL):(std::ptrdiff_t)g.range(-3,3000); }
    void operator()(const char*,int&x){ x=g.chance(1,6)?(int)g.draw(0xffffffffULL):g.range(-3,3000); }
    void operator()(const char*,bool&x){ x=g.flip(); }
    void operator()(const char*,std::string&x){ x=text(g); }
    template<class E> typename std::enable_if<std::is_enum<E>::value>::type operator()(const char*,E&x){ static const int p[]={0,1,2,3,4,5,6,7,8,16}; x=static_cast<E>(p[g.range(0,4)]); }
    template<int R,int C> void operator()(const char*,Eigen::Matrix<double,R,C>&x){ if(R==Eigen::Dynamic||C==Eigen::Dynamic) x.resize(R==Eigen::Dynamic?g.range(0,g.chance(1,20)?70000:6):R,C==Eigen::Dynamic?g.range(0,6):C); if(x.size()>100){ for(int i=0;i<x.size();++i) x(i)=i; for(int i=0;i<10;++i) x(g.range(0,(int)x.size()-1))=val(); } else for(int i=0;i<x.rows();++i) for(int j=0;j<x.cols();++j) x(i,j)=val(); }
    void operator()(const char*,humoto::IndexVector&x){ x.resize(g.chance(1,100)?g.size(7,300,70000):g.range(0,6)); for(int i=0;i<x.size();++i) x[i]=g.range(0,200); }
    void operator()(const char*,Wide&x){ x=static_cast<Wide>(g.flip()?g.range(-3,300):(int)g.draw(0x100000000ULL)); }
    void operator()(const char*,std::vector<double>&x){ x.resize(g.size(0,5,300)); for(size_t i=0;i<x.size();++i) x[i]=any?val():g.range(-80,80)/8.; }
    void operator()(const char*,std::vector<std::vector<std::string> >&x){ x.resize(g.size(0,3,40)); for(size_t i=0;i<x.size();++i){ x[i].resize(g.size(0,3,40)); for(size_t j=0;j<x[i].size();++j){ if(any) x[i][j]=text(g); else for(int n=g.range(0,6);n>0;--n) x[i][j]+=(char)g.range('a','z'); } } }
    template<class T> void sub(const char*,T&t);
};
struct Collect { Obj o;
    V&add(const char*n,char k){ o.push_back(std::make_pair(std::string(n),V())); o.back().second.k=k; return o.back().second; }
    void operator()(const char*n,double&x){ add(n,'d').d=x; }
    void operator()(const char*n,std::size_t&x){ add(n,'u').i=(int64_t)x; }
    void operator()(const char*n,std::ptrdiff_t&x){ add(n,'i').i=x; }
    void operator()(const char*n,int&x){ add(n,'i').i=x; }
    void operator()(const char*n,bool&x){ add(n,'b').i=x; }
    void operator()(const char*n,std::string&x){ add(n,'s').s=x; }
    template<class E> typename std::enable_if<std::is_enum<E>::value>::type operator()(const char*n,E&x){ V&v=add(n,'i'); v.i=(int64_t)x; v.r=1; /* enumeration */ }
    void operator()(const char*n,Wide&x){ V&v=add(n,'i'); v.i=(int64_t)x; v.r=2; /* enumeration of any integers */ }
    void operator()(const char*n,std::vector<double>&x){ V&v=add(n,'v'); v.a=x; }
    void operator()(const char*n,std::vector<std::vector<std::string> >&x){ V&v=add(n,'t'); v.ss=x; }
    template<int R> void operator()(const char*n,Eigen::Matrix<double,R,1>&x){ V&v=add(n,'v'); v.fixed=R!=Eigen::Dynamic; for(int i=0;i<x.size();++i) v.a.push_back(x[i]); }
    template<int R,int C> void operator()(const char*n,Eigen::Matrix<double,R,C>&x){ V&v=add(n,'m'); v.fixed=R!=Eigen::Dynamic; v.r=x.rows(); v.c=x.cols(); for(int i=0;i<x.rows();++i) for(int j=0;j<x.cols();++j) v.a.push_back(x(i,j)); }
    void operator()(const char*n,humoto::IndexVector&x){ V&v=add(n,'n'); for(int i=0;i<x.size();++i) v.a.push_back(x[i]); }
    template<class T> void sub(const char*n,T&t);
};
// ------------------------------------------------ own encoder / decoder
typedef msgpack::packer<msgpack::sbuffer> Packer;
inline void put(Packer&p,const V&v)
{
    switch(v.k){ case 'd': p.pack(v.d); break; case 'i': p.pack(v.i); break; case 'u': p.pack((uint64_t)v.i); break; case 'b': p.pack(v.i!=0); break; case 's': p.pack(v.s); break;
        case 'v': p.pack_array(v.a.size()); for(double x:v.a) p.pack(x); break;
        case 'n': p.pack_array(v.a.size()); for(double x:v.a) p.pack((int64_t)x); break;
        case 'm': p.pack_map(3); p.pack(std::string("rows")); p.pack((int64_t)v.r); p.pack(std::string("cols")); p.pack((int64_t)v.c); p.pack(std::string("data")); p.pack_array(v.a.size()); for(double x:v.a) p.pack(x); break;
        case 'o': p.pack_map(v.m.size()); for(auto&x:v.m){ p.pack(x.first); put(p,x.second); } break;
        case 't': p.pack(v.ss); break;
        case '0': p.pack_nil(); break; case 'a': p.pack_array(v.m.size()); for(auto&x:v.m) put(p,x.second); break;
        default: throw std::logic_error("put"); }
}
inline void section(msgpack::sbuffer&b,const std::string&name,const Obj&o){ Packer p(&b); p.pack_map(1); p.pack(name); V v; v.k='o'; v.m=o; put(p,v); }
inline void save(const std::string&f,const char*d,size_t n){ FILE*h=fopen(f.c_str(),"wb"); if(!h) throw std::runtime_error("scratch file"); if(n&&fwrite(d,1,n,h)!=n) throw std::runtime_error("scratch file"); fclose(h); }
inline void save(const std::string&f,const msgpack::sbuffer&b){ save(f,b.data(),b.size()); }
// decode what was written, guided by the expected tree (kinds and names)
inline V decode(const msgpack::object&o,const V&like)
{
    V v; v.k=like.k;
    switch(like.k){ case 'd': v.d=o.as<double>(); break; case 'i': v.i=o.as<int64_t>(); break; case 'u': v.i=(int64_t)o.as<uint64_t>(); break; case 'b': v.i=o.as<bool>(); break; case 's': v.s=o.as<std::string>(); break;
        case 'v': v.a=o.as<std::vector<double> >(); break; case 'n': for(int64_t x:o.as<std::vector<int64_t> >()) v.a.push_back(x); break;
        case 'm': { std::map<std::string,msgpack::object> m; o.convert(m); v.r=m["rows"].as<int>(); v.c=m["cols"].as<int>(); v.a=m["data"].as<std::vector<double> >(); PBT_CHECK(m.size()==3,"matrix entries"); break; }
        case 'o': { PBT_CHECK(o.type==msgpack::type::MAP,"not a map"); for(unsigned i=0;i<o.via.map.size;++i){ std::string n=o.via.map.ptr[i].key.as<std::string>(); const V*l=0; for(auto&x:like.m) if(x.first==n) l=&x.second; PBT_CHECK(l,"unexpected entry '"<<n<<"'"); v.m.push_back(std::make_pair(n,decode(o.via.map.ptr[i].val,*l))); } break; }
        case 't': v.ss=o.as<std::vector<std::vector<std::string> > >(); break; }
    return v;
}
inline std::string slurp(const std::string&f){ std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
// all sections of a file: name -> object
inline std::vector<std::pair<std::string,std::shared_ptr<msgpack::object_handle> > > sections(const std::string&f)
{
    std::string b=slurp(f); std::vector<std::pair<std::string,std::shared_ptr<msgpack::object_handle> > > r; size_t off=0;
    while(off<b.size()){ auto h=std::make_shared<msgpack::object_handle>(); msgpack::unpack(*h,b.data(),b.size(),off); PBT_CHECK(h->get().type==msgpack::type::MAP&&h->get().via.map.size==1,"a section is not a map with one entry"); r.push_back(std::make_pair(h->get().via.map.ptr[0].key.as<std::string>(),h)); }
    return r;
}
// ------------------------------------------------ the classes
#define CF(x) f(#x,t.x##_);
template<class F> void fields(F&f,humoto::rigidbody::PointMassState&t){ CF(position) CF(velocity) CF(acceleration) }
template<class F> void fields(F&f,humoto::rigidbody::RotaryState&t){ CF(rpy) CF(angular_velocity) CF(angular_acceleration) }
template<class F> void fields(F&f,humoto::rigidbody::RigidBodyState&t){ CF(position) CF(velocity) CF(acceleration) CF(rpy) CF(angular_velocity) CF(angular_acceleration) }
template<class F> void fields(F&f,humoto::rigidbody::RigidBodyPose&t){ CF(position) CF(rpy) }
struct Obstacle: humoto::obstacle_avoidance::ObstacleBase { void updateConstraints(const humoto::ControlProblem&,const humoto::Solution&,const double){} void resetConstraints(const humoto::ControlProblem&){} };
template<class F> void fields(F&f,Obstacle&t){ CF(position) CF(velocity) CF(acceleration) CF(rpy) CF(angular_velocity) CF(angular_acceleration) }
template<class F> void fields(F&f,humoto::walking::StanceFSMParameters&t){ CF(ss_duration_ms) CF(tds_duration_ms) CF(first_stance_duration_ms) CF(last_stance_duration_ms) CF(num_steps) CF(first_stance) CF(first_ss_type) CF(last_stance) }
template<class F> void fields(F&f,humoto::wpg04::WalkParameters&t){ CF(com_velocity) CF(first_stance_com_velocity) CF(last_stance_com_velocity) CF(step_height) CF(theta_increment) fields(f,static_cast<humoto::walking::StanceFSMParameters&>(t)); }
template<class F> void fields(F&f,humoto::wpg04::MPCParameters&t){ CF(preview_horizon_length) CF(sampling_time_ms) CF(subsampling_time_ms) CF(tds_sampling_time_ms) }
template<class F> void fields(F&f,humoto::pepper_mpc::MPCParameters&t){ CF(preview_horizon_length) CF(sampling_time_ms) CF(subsampling_time_ms) }
template<class F> void fields(F&f,humoto::pepper_mpc::RobotParameters&t){ CF(base_radius) CF(max_nominal_base_velocity) CF(max_nominal_base_acceleration) CF(max_base_velocity) CF(max_base_acceleration) CF(body_bounds) }
template<class F> void fields(F&f,humoto::pepper_mpc::MotionParameters&t){ CF(base_velocity) CF(base_position) CF(base_angular_velocity) CF(motion_mode) CF(duration_ms) }
template<class F> void fields(F&f,humoto::Solution&t){ CF(x) }
struct BaseParams: humoto::SolverParametersBase { };
template<class F> void fields(F&f,BaseParams&t){ CF(crash_on_any_failure) CF(solve_two_levels_as_qp) }
template<class F> void fields(F&f,humoto::kktsolver::SolverParameters&t){ CF(crash_on_any_failure) CF(solve_two_levels_as_qp) }
template<class F> void fields(F&f,humoto::quadprogpp::SolverParameters&t){ CF(crash_on_any_failure) CF(solve_two_levels_as_qp) CF(regularization_factor) }
template<class F> void fields(F&f,humoto::qpmad::SolverParameters::QPmadParameters&t){ CF(hessian_type) CF(tolerance) CF(max_iter) }
template<class F> void fields(F&f,humoto::qpmad::SolverParameters&t){ CF(crash_on_any_failure) CF(solve_two_levels_as_qp) CF(regularization_factor) f.sub("QPmadParameters",t.options_); }
typedef decltype(humoto::qpoases::SolverParameters().options_) OasesOptions;
template<class F> void fields(F&f,OasesOptions&t)
{
    #define CFP(x) f(#x,t.x);
    CFP(enableRamping) CFP(enableFarBounds) CFP(enableFlippingBounds) CFP(enableRegularisation) CFP(enableFullLITests) CFP(enableNZCTests) CFP(enableDriftCorrection) CFP(enableCholeskyRefactorisation) CFP(enableEqualities) CFP(terminationTolerance) CFP(boundTolerance) CFP(boundRelaxation) CFP(epsNum) CFP(epsDen) CFP(maxPrimalJump) CFP(maxDualJump) CFP(initialRamping) CFP(finalRamping) CFP(initialFarBounds) CFP(growFarBounds) CFP(initialStatusBounds) CFP(epsFlipping) CFP(numRegularisationSteps) CFP(epsRegularisation) CFP(numRefinementSteps) CFP(epsIterRef) CFP(epsLITests) CFP(epsNZCTests) CFP(rcondSMin) CFP(enableInertiaCorrection) CFP(enableDropInfeasibles) CFP(dropBoundPriority) CFP(dropEqConPriority) CFP(dropIneqConPriority)
    #undef CFP
}
template<class F> void fields(F&f,humoto::qpoases::SolverParameters&t){ CF(crash_on_any_failure) CF(solve_two_levels_as_qp) CF(max_number_of_iterations) CF(max_cpu_time) f.sub("QPoasesParameters",t.options_); }
template<class F> void fields(F&f,humoto::wpg04::ModelState&t){ CF(stance_type) CF(next_stance_type) f.sub("com_state",t.com_state_); f.sub("left_foot_state",t.feet_.getLeft()); f.sub("right_foot_state",t.feet_.getRight()); }
template<class F> void fields(F&f,humoto::pepper_mpc::ModelState&t){ f.sub("base_state",t.base_state_); f.sub("body_state",t.body_state_); CF(base_mass) CF(body_mass) }
typedef humoto::pepper_ik::GeneralizedCoordinates<humoto::pepper_ik::ModelFeatures::FIXED_WHEELS|humoto::pepper_ik::ModelFeatures::ROOT_PLANAR> PlanarCoordinates;
typedef humoto::pepper_ik::GeneralizedCoordinates<humoto::pepper_ik::ModelFeatures::FIXED_WHEELS|humoto::pepper_ik::ModelFeatures::ROOT_TORSO> TorsoCoordinates;
template<class F> void fields(F&f,PlanarCoordinates&t){ CF(root_pose) CF(joint_angles) }
template<class F> void fields(F&f,TorsoCoordinates&t){ CF(root_pose) CF(joint_angles) }
template<class F> void fields(F&f,humoto::pepper_ik::WBCParameters&t){ CF(control_interval_ms) CF(joint_angle_error_tolerance) CF(motion_parameters_tolerance) CF(maximal_number_of_iterations) }
template<class F> void fields(F&f,humoto::pepper_ik::MotionParameters&t){ CF(base_orientation_rpy) CF(base_com_position) CF(body_com_position) }
// own classes, defined the way users define theirs
class Inner: public humoto::config::RelaxedConfigurableBase
{
    #define HUMOTO_CONFIG_SECTION_ID "Inner"
    #define HUMOTO_CONFIG_CONSTRUCTOR Inner
    #define HUMOTO_CONFIG_ENTRIES HUMOTO_CONFIG_SCALAR_(name) HUMOTO_CONFIG_COMPOUND_(mat) HUMOTO_CONFIG_SCALAR(plain)
    #include HUMOTO_CONFIG_DEFINE_ACCESSORS
    public: std::string name_; Eigen::MatrixXd mat_; double plain; int finalized_; Inner():finalized_(0){ setDefaults(); } void setDefaults(){ name_="inner"; mat_.resize(2,3); mat_<<1,2,3,4,5,6; plain=7; } void finalize(){ ++finalized_; }
};
template<class F> void fields(F&f,Inner&t){ CF(name) CF(mat) f("plain",t.plain); }
class Custom: public humoto::config::StrictConfigurableBase
{
    #define HUMOTO_CONFIG_SECTION_ID "Custom"
    #define HUMOTO_CONFIG_CONSTRUCTOR Custom
    #define HUMOTO_CONFIG_ENTRIES HUMOTO_CONFIG_COMPOUND_(m23) HUMOTO_CONFIG_COMPOUND_(m32) HUMOTO_CONFIG_COMPOUND_(mx) HUMOTO_CONFIG_COMPOUND_(row) HUMOTO_CONFIG_COMPOUND_(idx) HUMOTO_CONFIG_COMPOUND(v) HUMOTO_CONFIG_SCALAR_(flag) HUMOTO_CONFIG_SCALAR_(text) HUMOTO_CONFIG_ENUM(mode) HUMOTO_CONFIG_ENUM_(wide) HUMOTO_CONFIG_COMPOUND_(list) HUMOTO_CONFIG_COMPOUND_(names) HUMOTO_CONFIG_SCALAR_(count) HUMOTO_CONFIG_SCALAR_(step) HUMOTO_CONFIG_MEMBER_CLASS(inner_,"inner") HUMOTO_CONFIG_MEMBER_CLASS(other_,"other inner")
    #include HUMOTO_CONFIG_DEFINE_ACCESSORS
    public: Eigen::Matrix<double,2,3> m23_; Eigen::Matrix<double,3,2> m32_; Eigen::MatrixXd mx_; Eigen::Matrix<double,2,2> row_; humoto::IndexVector idx_; Eigen::VectorXd v; bool flag_; std::string text_; humoto::pepper_mpc::MotionMode::Mode mode; Inner inner_; Inner other_; Wide wide_; std::vector<double> list_; std::vector<std::vector<std::string> > names_; std::size_t count_; std::ptrdiff_t step_; int finalized_;
    Custom():finalized_(0){ setDefaults(); } void setDefaults(){ m23_<<1,2,3,4,5,6; m32_<<7,8,9,10,11,12; mx_.setZero(1,2); row_<<1,2,3,4; idx_.setZero(3); v.setOnes(2); flag_=true; text_="default"; mode=humoto::pepper_mpc::MotionMode::MAINTAIN_POSITION; inner_.setDefaults(); other_.setDefaults(); other_.plain=9; wide_=static_cast<Wide>(1000); list_.assign(2,.5); names_.assign(2,std::vector<std::string>(1,"name")); count_=5; step_=-5; } void finalize(){ ++finalized_; }
};
template<class F> void fields(F&f,Custom&t){ CF(m23) CF(m32) CF(mx) CF(row) CF(idx) f("v",t.v); CF(flag) CF(text) f("mode",t.mode); CF(wide) CF(list) CF(names) CF(count) CF(step) f.sub("inner",t.inner_); f.sub("other inner",t.other_); }
// tasks of a user with nothing but a gain, which is zero by default
class GeneralTask: public humoto::TaskALU
{
    #define HUMOTO_CONFIG_SECTION_ID "GeneralTask"
    #define HUMOTO_CONFIG_CONSTRUCTOR GeneralTask
    #define HUMOTO_CONFIG_ENTRIES HUMOTO_CONFIG_PARENT_CLASS(humoto::TaskALU)
    #include HUMOTO_CONFIG_DEFINE_ACCESSORS
    public: using humoto::TaskALU::gain_; using humoto::TaskALU::setDefaults; GeneralTask(): humoto::TaskALU("GeneralTask",0.0){} void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&){} ~GeneralTask(){}
};
template<class F> void fields(F&f,GeneralTask&t){ CF(gain) }
class IndexedTask: public humoto::TaskGIB
{
    #define HUMOTO_CONFIG_SECTION_ID "IndexedTask"
    #define HUMOTO_CONFIG_CONSTRUCTOR IndexedTask
    #define HUMOTO_CONFIG_ENTRIES HUMOTO_CONFIG_PARENT_CLASS(humoto::TaskGIB)
    #include HUMOTO_CONFIG_DEFINE_ACCESSORS
    public: using humoto::TaskGIB::gain_; using humoto::TaskGIB::setDefaults; IndexedTask(): humoto::TaskGIB("IndexedTask",0.0){} void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&){} ~IndexedTask(){}
};
template<class F> void fields(F&f,IndexedTask&t){ CF(gain) }
template<class T> void Fill::sub(const char*,T&t){ fields(*this,t); }
template<class T> void Collect::sub(const char*n,T&t){ Collect c; fields(c,t); V&v=add(n,'o'); v.m=c.o; T fresh; Collect d; fields(d,fresh); v.def=d.o; }
inline bool strangeEnum(const Obj&o){ for(auto&x:o){ if(x.second.k=='o'&&strangeEnum(x.second.m)) return true; if(x.second.k=='i'&&x.second.r==1&&(x.second.i<0||x.second.i>255)) return true; } return false; }
template<class T> Obj collect(const T&t){ Collect c; fields(c,const_cast<T&>(t)); return c.o; }
// values that a class accepts (finalize() of some classes rejects others)
template<class T> void generate(pbt::Case&g,T&t,bool any=true){ Fill f(g,any); fields(f,t); }
inline void generate(pbt::Case&g,humoto::wpg04::MPCParameters&t,bool=true){ t.preview_horizon_length_=g.range(0,50); t.subsampling_time_ms_=g.range(1,100); t.sampling_time_ms_=t.subsampling_time_ms_*g.range(0,20); t.tds_sampling_time_ms_=t.subsampling_time_ms_*g.range(0,20); }
inline void generate(pbt::Case&g,humoto::pepper_mpc::MPCParameters&t,bool=true){ t.preview_horizon_length_=g.range(0,50); t.sampling_time_ms_=g.range(0,1000); t.subsampling_time_ms_=g.range(0,1000); }
// values that follow from the configured ones
template<class T> void checkDerived(const T&){}
inline void checkDerived(const humoto::wpg04::MPCParameters&t){ PBT_CHECK(t.getSubsamplingTime()==0.001*t.subsampling_time_ms_||std::fabs(t.getSubsamplingTime()-0.001*t.subsampling_time_ms_)<1e-12,"subsampling time after reading"); }
inline void checkDerived(const humoto::pepper_mpc::MPCParameters&t){ PBT_CLOSE(t.getSamplingTime(),0.001*t.sampling_time_ms_,"sampling time after reading"); PBT_CLOSE(t.getSubsamplingTime(),0.001*t.subsampling_time_ms_,"subsampling time after reading"); }
inline void checkBound(const etools::Matrix2&b,double r,const char*w){ double h=r/std::sqrt(2.0); if(!(std::fabs(h)<1e200)) return; PBT_CHECK(std::fabs(b(0,0)+h)<=1e-12*std::fabs(h)&&std::fabs(b(1,0)+h)<=1e-12*std::fabs(h)&&std::fabs(b(0,1)-h)<=1e-12*std::fabs(h)&&std::fabs(b(1,1)-h)<=1e-12*std::fabs(h),w<<" after reading"); }
inline void checkDerived(const humoto::pepper_mpc::RobotParameters&t){ checkBound(t.getCoPBounds(),t.base_radius_,"CoP bounds"); checkBound(t.getNominalBaseVelocityBounds(),t.max_nominal_base_velocity_,"velocity bounds"); checkBound(t.getNominalBaseAccelerationBounds(),t.max_nominal_base_acceleration_,"acceleration bounds"); }
inline void checkDerived(const humoto::pepper_ik::WBCParameters&t){ PBT_CLOSE(t.control_interval_,0.001*t.control_interval_ms_,"control interval after reading"); }
inline void checkDerived(const Custom&t){ PBT_CHECK(t.finalized_>0,"finalize() was not called"); }
template<class T> struct Name { static const char*n(){ return "?"; } };
#define CF_NAME(T,s) template<> struct Name<T>{ static const char*n(){ return s; } };
CF_NAME(GeneralTask,"GeneralTask") CF_NAME(IndexedTask,"IndexedTask") CF_NAME(humoto::rigidbody::PointMassState,"PointMassState") CF_NAME(humoto::rigidbody::RotaryState,"RotaryState") CF_NAME(humoto::rigidbody::RigidBodyState,"RigidBodyState") CF_NAME(humoto::rigidbody::RigidBodyPose,"RigidBodyPose") CF_NAME(Obstacle,"ObstacleBase") CF_NAME(humoto::walking::StanceFSMParameters,"StanceFSMParameters") CF_NAME(humoto::wpg04::WalkParameters,"WalkParameters") CF_NAME(humoto::wpg04::MPCParameters,"MPCParameters") CF_NAME(humoto::pepper_mpc::MPCParameters,"MPCParameters") CF_NAME(humoto::pepper_mpc::RobotParameters,"RobotParameters") CF_NAME(humoto::pepper_mpc::MotionParameters,"MotionParameters") CF_NAME(humoto::Solution,"Solution") CF_NAME(BaseParams,"SolverParametersBase") CF_NAME(humoto::kktsolver::SolverParameters,"SolverParameters") CF_NAME(humoto::wpg04::ModelState,"ModelState") CF_NAME(humoto::pepper_mpc::ModelState,"ModelState") CF_NAME(humoto::quadprogpp::SolverParameters,"QuadProg SolverParameters") CF_NAME(humoto::qpmad::SolverParameters,"qpmad SolverParameters") CF_NAME(humoto::qpoases::SolverParameters,"qpOASES SolverParameters") CF_NAME(PlanarCoordinates,"GeneralizedCoordinates") CF_NAME(TorsoCoordinates,"GeneralizedCoordinates, torso") CF_NAME(humoto::pepper_ik::WBCParameters,"WBCParameters") CF_NAME(humoto::pepper_ik::MotionParameters,"IK MotionParameters") CF_NAME(Custom,"Custom") CF_NAME(Inner,"Inner")
// call a functor template with one of the classes
template<class F> void withClass(int i,F&f)
{
    switch(i){
    case 0: f.template run<humoto::rigidbody::PointMassState>(); break; case 1: f.template run<humoto::rigidbody::RotaryState>(); break; case 2: f.template run<humoto::rigidbody::RigidBodyState>(); break; case 3: f.template run<humoto::rigidbody::RigidBodyPose>(); break;
    case 4: f.template run<Obstacle>(); break; case 5: f.template run<humoto::walking::StanceFSMParameters>(); break; case 6: f.template run<humoto::wpg04::WalkParameters>(); break; case 7: f.template run<humoto::wpg04::MPCParameters>(); break;
    case 8: f.template run<humoto::pepper_mpc::MPCParameters>(); break; case 9: f.template run<humoto::pepper_mpc::RobotParameters>(); break; case 10: f.template run<humoto::pepper_mpc::MotionParameters>(); break; case 11: f.template run<humoto::Solution>(); break;
    case 12: f.template run<BaseParams>(); break; case 13: f.template run<humoto::kktsolver::SolverParameters>(); break; case 14: f.template run<humoto::wpg04::ModelState>(); break; case 15: f.template run<humoto::pepper_mpc::ModelState>(); break;
    case 25: f.template run<GeneralTask>(); break; case 26: f.template run<IndexedTask>(); break; case 16: f.template run<Inner>(); break; case 17: f.template run<humoto::quadprogpp::SolverParameters>(); break; case 18: f.template run<humoto::qpmad::SolverParameters>(); break; case 19: f.template run<humoto::qpoases::SolverParameters>(); break; case 20: f.template run<PlanarCoordinates>(); break; case 21: f.template run<TorsoCoordinates>(); break; case 22: f.template run<humoto::pepper_ik::WBCParameters>(); break; case 23: f.template run<humoto::pepper_ik::MotionParameters>(); break; default: f.template run<Custom>(); break; }
}
enum { CLASSES=27 };
}
