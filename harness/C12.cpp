// PBT-rule: a hierarchy with at least two tasks was written or read, or a defective description was rejected
// PBT-assume: identifiers of tasks are distinct (they name the sections) | msgpack bridge
// PBT-flags: -I{V}/lib/stubs
#include "config_gen.h"
#include <typeinfo>
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cf;
struct T { std::string cls,id; double gain; std::string var; std::vector<double> idx; bool fix; double k; int axes; double rpy[3]; std::vector<double> ref; const std::type_info*ti; };
typedef std::vector<std::vector<T> > H;
struct Cls { const char*name; int kind; /* 0 nothing 1 gain 2 gain+variable 3 gain+indices 4 fix */ std::function<humoto::TaskSharedPointer(const T&)> make; const std::type_info*ti; const char*kname; };
template<class Q> static humoto::TaskSharedPointer mk0(const T&t){ humoto::TaskSharedPointer p(new Q); p->setDescription(t.id); return p; }
template<class Q> static humoto::TaskSharedPointer mk1(const T&t){ boost::shared_ptr<Q> p(new Q); p->setGain(t.gain); p->setDescription(t.id); return p; }
template<class Q> static humoto::TaskSharedPointer mk2(const T&t){ boost::shared_ptr<Q> p(new Q); p->setGain(t.gain); p->setVariablesID(t.var); p->setDescription(t.id); return p; }
static humoto::TaskSharedPointer mk3(const T&t){ humoto::IndexVector v(t.idx.size()); for(size_t i=0;i<t.idx.size();++i) v[i]=t.idx[i]; return humoto::TaskSharedPointer(new humoto::TaskZeroSelectedVariables(v,t.gain,t.id)); }
static humoto::TaskSharedPointer mk4(const T&t){ humoto::TaskSharedPointer p(new humoto::wpg04::TaskFootstepBounds(t.fix)); p->setDescription(t.id); return p; }
static std::vector<Cls> core(){ using namespace humoto; return { {"TaskInfeasibleInequality",1,mk1<TaskInfeasibleInequality>,&typeid(TaskInfeasibleInequality),0},{"TaskZeroVariables",2,mk2<TaskZeroVariables>,&typeid(TaskZeroVariables),0},{"TaskZeroSelectedVariables",3,mk3,&typeid(TaskZeroSelectedVariables),0} }; }
#define C_(ns,n,k) r.push_back(Cls{#n,k,mk##k<humoto::ns::n>,&typeid(humoto::ns::n),0});
static std::vector<Cls> wpg(){ std::vector<Cls> r=core(); C_(wpg04,TaskCoMVelocity,1) C_(wpg04,TaskCoPPosition,2) C_(wpg04,TaskCoPVelocity,1) r.push_back(Cls{"TaskFootstepBounds",4,mk4,&typeid(humoto::wpg04::TaskFootstepBounds),0}); C_(wpg04,TaskCoPBounds,0) C_(wpg04,TaskTerminalConstraint,1) return r; }
static std::vector<Cls> pepper(){ std::vector<Cls> r=core(); C_(pepper_mpc,TaskBaseAccelerationBounds,1) C_(pepper_mpc,TaskBaseJerkMinimization,1) C_(pepper_mpc,TaskBasePositionReference,1) C_(pepper_mpc,TaskBaseVelocityBounds,0) C_(pepper_mpc,TaskBaseVelocityReference,1) C_(pepper_mpc,TaskBodyJerkMinimization,2) C_(pepper_mpc,TaskBodyPositionBounds,1) C_(pepper_mpc,TaskBodyPositionReference,1) C_(pepper_mpc,TaskCoPCentering,1) C_(pepper_mpc,TaskCoPPositionBounds,1) return r; }
// whole body inverse kinematics: 5 gain, second gain; 6 the same and axes; 7 the same and a tag; 8 the same, a tag and an orientation; 9 the same and reference angles (only readable)
namespace ik=humoto::pepper_ik; enum { PL=ik::ModelFeatures::FIXED_WHEELS|ik::ModelFeatures::ROOT_PLANAR, TI=ik::ModelFeatures::FIXED_WHEELS|ik::ModelFeatures::ROOT_TIBIA };
template<class Q> static humoto::TaskSharedPointer mk5(const T&t){ humoto::TaskSharedPointer p(new Q(t.gain,t.k)); p->setDescription(t.id); return p; }
template<class Q> static humoto::TaskSharedPointer mk6(const T&t){ humoto::TaskSharedPointer p(new Q(t.gain,t.k,t.axes)); p->setDescription(t.id); return p; }
template<class Q> static humoto::TaskSharedPointer mk7(const T&t){ humoto::TaskSharedPointer p(new Q(t.var,t.gain,t.k)); p->setDescription(t.id); return p; }
template<class Q> static humoto::TaskSharedPointer mk8(const T&t){ humoto::TaskSharedPointer p(new Q(t.var,etools::Vector3(t.rpy[0],t.rpy[1],t.rpy[2]),t.gain,t.k)); p->setDescription(t.id); return p; }
template<class Q> static humoto::TaskSharedPointer mk9(const T&t){ boost::shared_ptr<Q> p(new Q(t.gain,t.k)); TmpFile f("r"); Obj o; V v; v.k='d'; v.d=t.gain; o.push_back(std::make_pair("gain",v)); v.d=t.k; o.push_back(std::make_pair("k_position_gain",v)); V r; r.k='v'; r.a=t.ref; o.push_back(std::make_pair("joint_angles_reference",r)); msgpack::sbuffer b; section(b,"T",o); save(f.name,b); p->template readConfig<Reader>(f.name,"T"); p->setDescription(t.id); return p; }
#define I_(n,k,kn) r.push_back(Cls{#n,k,mk##k<ik::n<F> >,&typeid(ik::n<F>),kn});
template<int F> static std::vector<Cls> inverse(){ std::vector<Cls> r=core(); I_(TaskBaseCoMTracking,5,"k_position_gain") I_(TaskBaseOrientation,5,"k_orientation_gain") I_(TaskBodyCoMTracking,6,"k_position_gain") I_(TaskFixArms,0,0) I_(TaskFixHead,0,0) I_(TaskJointsBounds,0,0) I_(TaskJointsReference,9,"k_position_gain") I_(TaskTagOrientation,8,"k_orientation_gain") I_(TaskTagAngularVelocity,7,"k_angular_velocity_gain") I_(TaskTagCompleteVelocity,7,"k_complete_velocity_gain") I_(TaskTagPose,7,"k_pose_gain") I_(TaskTagPose3Dof,7,"k_pose_gain") return r; }
template<class P> struct X: P { std::string shape() const { std::ostringstream o; for(size_t i=0;i<this->getNumberOfLevels();++i){ o<<"|"; std::vector<std::string> v; for(auto&t:this->hierarchy_[i].tasks_) v.push_back(std::string(typeid(*t.ptr_).name())+":"+quote(t.ptr_->getDescription())); std::sort(v.begin(),v.end()); for(auto&x:v) o<<x<<","; } return o.str(); } };
static const Cls&clsOf(const std::vector<Cls>&c,const std::string&n){ for(auto&x:c) if(n==x.name) return x; throw std::logic_error("class"); }
static Obj entries(const T&t,const Cls&c){ int kind=c.kind; Obj o; V d; if((kind>=1&&kind<=3)||kind>=5){ d.k='d'; d.d=t.gain; o.push_back(std::make_pair("gain",d)); } if(kind==2){ V s; s.k='s'; s.s=t.var; o.push_back(std::make_pair("variables_id",s)); } if(kind==3){ V n; n.k='n'; n.a=t.idx; o.push_back(std::make_pair("variables_indices",n)); } if(kind==4){ V b; b.k='b'; b.i=t.fix; o.push_back(std::make_pair("fix_footsteps",b)); } if(kind>=5){ d.d=t.k; o.push_back(std::make_pair(c.kname,d)); } if(kind==6){ V i; i.k='i'; i.i=t.axes; o.push_back(std::make_pair("axis_flag",i)); } if(kind==7||kind==8){ V s; s.k='s'; s.s=t.var; o.push_back(std::make_pair("tag_string_id",s)); } if(kind==8){ V v; v.k='v'; v.a.assign(t.rpy,t.rpy+3); o.push_back(std::make_pair("reference_rpy",v)); } if(kind==9){ V v; v.k='v'; v.a=t.ref; o.push_back(std::make_pair("joint_angles_reference",v)); } return o; }
static Obj describe(const H&h,const std::vector<Cls>&c)
{
    Obj o; V n,i; n.k=i.k='t'; for(auto&l:h){ n.ss.push_back(std::vector<std::string>()); i.ss.push_back(std::vector<std::string>()); for(auto&t:l){ n.ss.back().push_back(t.cls); i.ss.back().push_back(t.id); } }
    o.push_back(std::make_pair("task_class_names",n)); o.push_back(std::make_pair("task_ids",i)); for(auto&l:h) for(auto&t:l){ V v; v.k='o'; v.m=entries(t,clsOf(c,t.cls)); o.push_back(std::make_pair(t.id,v)); } return o;
}
static std::string shapeOf(const H&h){ std::ostringstream o; for(auto&l:h){ o<<"|"; std::vector<std::string> v; for(auto&t:l) v.push_back(std::string(t.ti->name())+":"+quote(t.id)); std::sort(v.begin(),v.end()); for(auto&x:v) o<<x<<","; } return o.str(); }
static T genTask(pbt::Case&g,const std::vector<Cls>&c,int n){ T t; const Cls&k=c[g.range(0,(int)c.size()-1)]; t.cls=k.name; t.ti=k.ti; t.id=std::to_string(n)+(g.flip()?t.cls:text(g,4)); t.id.erase(std::remove(t.id.begin(),t.id.end(),(char)0),t.id.end()); t.gain=value(g); t.var=text(g); for(int i=g.size(0,3,300);i>0;--i) t.idx.push_back(g.size(0,9,70000)); t.fix=g.flip(); t.k=value(g); t.axes=g.range(0,9); for(int i=0;i<3;++i) t.rpy[i]=k.kind==8?value(g):0; if(k.kind==9) for(int i=0;i<15;++i) t.ref.push_back(i%4==0?value(g):i); return t; }
static H genH(pbt::Case&g,const std::vector<Cls>&c){ H h(g.size(1,4,20)); int n=0; for(auto&l:h) for(int i=g.size(0,3,20);i>0;--i) l.push_back(genTask(g,c,n++)); return h; }
static int count(const H&h){ int n=0; for(auto&l:h) n+=l.size(); return n; }
template<class P> static void verify(const X<P>&p,const H&h,const std::vector<Cls>&c)
{
    PBT_CHECK(p.getNumberOfLevels()==h.size(),"levels"); PBT_CHECK(p.shape()==shapeOf(h),"hierarchy is "<<p.shape()<<" instead of "<<shapeOf(h)); TmpFile f("v");
    if(h.empty()){ PBT_CHECK(pbt::throwsCleanly([&]{ p.template writeConfig<Writer>(f.name); }),"empty hierarchy was written"); return; }
    p.template writeConfig<Writer>(f.name,std::string("P")); V like; like.k='o'; like.m=describe(h,c); auto s=sections(f.name); PBT_CHECK(s.size()==1,"sections"); V got=decode(s[0].second->get().via.map.ptr[0].val,like); PBT_CHECK(canon(got)==canon(like),"wrote "<<canon(got).substr(0,500)<<" instead of "<<canon(like).substr(0,500));
}
template<class P> static void history(pbt::Case&g,const std::vector<Cls>&c)
{
    X<P> p; H h; int steps=g.range(1,6),next=100; int best=0;
    for(int s=0;s<steps;++s)
    {
        TmpFile f;
        switch(g.range(0,5))
        {
            case 0: { h=genH(g,c); p.reset(h.size()); for(size_t l=0;l<h.size();++l) for(auto&t:h[l]) for(auto&k:c) if(t.cls==k.name) p.pushTask(k.make(t),l,t.cls); g.note("push",shapeOf(h).substr(0,120)); break; }
            case 1: { h=genH(g,c); msgpack::sbuffer b; section(b,"OptimizationProblem",describe(h,c)); save(f.name,b); p.template readConfig<Reader>(f.name); g.note("read",shapeOf(h).substr(0,120)); break; }
            case 2: { if(h.empty()) break; p.template writeConfig<Writer>(f.name); X<P> q; if(g.flip()){ H z=genH(g,c); msgpack::sbuffer b; TmpFile e("e"); section(b,"Q",describe(z,c)); save(e.name,b); q.template readConfig<Reader>(e.name,"Q"); } q.template readConfig<Reader>(f.name); verify(q,h,c); g.note("copy",""); break; }
            case 3: { if(h.empty()) break; T t=genTask(g,c,next++); int l=g.range(0,(int)h.size()-1); for(auto&k:c) if(t.cls==k.name) p.pushTask(k.make(t),l,t.cls); h[l].push_back(t); g.note("push",t.cls); PBT_CHECK(pbt::throwsCleanly([&]{ p.pushTask(c[0].make(t),h.size(),t.cls); }),"task pushed to a missing level"); break; }
            case 4: { // a defective description is rejected, the next good one is used
                H z=genH(g,c); Obj o=describe(z,c); int k=g.range(0,5); bool strict=g.flip(); std::string why; Obj o2;
                if(k==0){ if(!count(z)) break; for(size_t l=0;l<z.size();++l) if(!z[l].empty()){ int j=g.range(0,(int)z[l].size()-1); o[0].second.ss[l][j]=g.flip()?"NoSuchTask":""; } why="unknown task"; }
                else if(k==1){ int l=g.range(0,(int)z.size()-1); if(g.flip()||o[0].second.ss[l].empty()) o[1].second.ss[l].push_back("extra"); else o[0].second.ss[l].pop_back(); why="different numbers of names and identifiers"; }
                else if(k==2){ if(g.flip()) o[1].second.ss.push_back(std::vector<std::string>()); else o[0].second.ss.push_back(std::vector<std::string>()); why="different numbers of levels"; }
                else if(k==3){ o.erase(o.begin()+g.range(0,1)); why="missing list"; }
                else if(k==4){ o[0].second.ss.clear(); o[1].second.ss.clear(); why="no levels"; }
                else { if(!count(z)) break; strict=true; o.erase(o.begin()+g.range(2,(int)o.size()-1)); why="missing section of a task"; }
                msgpack::sbuffer b; section(b,"P",o); save(f.name,b); X<P> q; bool reuse=g.flip(); X<P>&r=reuse?p:q; g.note("defective",why); g.tag(why); g.nontrivial(true); PBT_CHECK(pbt::throwsCleanly([&]{ r.template readConfig<Reader>(f.name,std::string("P"),strict); }),"accepted a description with "<<why); if(reuse){ h.clear(); p.reset(0); } break; }
            default: { size_t n=g.range(0,3); p.reset(n); h.assign(n,std::vector<T>()); g.note("reset",n); break; }
        }
        verify(p,h,c); best=std::max(best,count(h));
    }
    g.nontrivial(best>1);
}
// entries that are absent from a description that need not be complete are those of a default constructed task
template<class Q> static humoto::TaskSharedPointer fresh(){ return humoto::TaskSharedPointer(new Q); }
PBT_PROP(wpg04_defaults,3000,40000)
{
    using namespace humoto::wpg04; typedef humoto::wpg04::ConfigurableOptimizationProblem P; static const std::vector<Cls> all=wpg(); static const std::map<std::string,std::function<humoto::TaskSharedPointer()> > mk={{"TaskCoMVelocity",fresh<TaskCoMVelocity>},{"TaskCoPPosition",fresh<TaskCoPPosition>},{"TaskCoPVelocity",fresh<TaskCoPVelocity>},{"TaskFootstepBounds",fresh<TaskFootstepBounds>},{"TaskCoPBounds",fresh<TaskCoPBounds>},{"TaskTerminalConstraint",fresh<TaskTerminalConstraint>}};
    H h(g.range(1,2)); int n=0; Obj want,file; for(auto&l:h) for(int i=g.range(1,3);i>0;--i){ T t; do t=genTask(g,all,n); while(!mk.count(t.cls)); ++n; l.push_back(t); } Obj d=describe(h,all); X<P> ref; ref.reset(h.size()); for(size_t l=0;l<h.size();++l) for(auto&t:h[l]){ humoto::TaskSharedPointer q=mk.at(t.cls)(); q->setDescription(t.id); ref.pushTask(q,l,t.cls); } TmpFile a("a"),b("b"),c("c");
    ref.template writeConfig<Writer>(a.name,std::string("P")); V like; like.k='o'; like.m=d; auto sa=sections(a.name); V def=decode(sa[0].second->get().via.map.ptr[0].val,like); int gone=0; Obj pruned=d,expect=d; PBT_CHECK(def.m.size()==d.size(),"entries");
    for(size_t i=2;i<d.size();++i){ const V*dv=0; for(auto&x:def.m) if(x.first==d[i].first) dv=&x.second; PBT_CHECK(dv,"no section of "<<d[i].first); Obj k; for(auto&e:d[i].second.m){ if(g.flip()) k.push_back(e); else { ++gone; for(auto&y:expect[i].second.m) if(y.first==e.first) for(auto&z:dv->m) if(z.first==e.first) y.second=z.second; } } pruned[i].second.m=k; } 
    msgpack::sbuffer buf; section(buf,"P",pruned); save(b.name,buf); X<P> q; q.template readConfig<Reader>(b.name,std::string("P"),false); q.template writeConfig<Writer>(c.name,std::string("P")); auto sc=sections(c.name); V got=decode(sc[0].second->get().via.map.ptr[0].val,like); g.note("absent",gone); g.nontrivial(gone>0);
    for(auto&x:expect) for(auto&y:got.m) if(x.first==y.first&&x.second.k=='o') for(auto&e:x.second.m) for(auto&z:y.second.m) if(e.first==z.first) PBT_CHECK(canon(e.second)==canon(z.second),x.first<<": entry '"<<e.first<<"' of a description that need not be complete");
}
PBT_PROP(core_problem,8000,150000){ history<humoto::ConfigurableOptimizationProblem>(g,core()); }
PBT_PROP(wpg04_problem,8000,150000){ history<humoto::wpg04::ConfigurableOptimizationProblem>(g,wpg()); }
PBT_PROP(pepper_problem,8000,150000){ history<humoto::pepper_mpc::ConfigurableOptimizationProblem>(g,pepper()); }
PBT_PROP(ik_planar_problem,4000,80000){ history<ik::ConfigurableOptimizationProblem<PL> >(g,inverse<PL>()); }
PBT_PROP(ik_tibia_problem,3000,80000){ history<ik::ConfigurableOptimizationProblem<TI> >(g,inverse<TI>()); }
PBT_MAIN
