// PBT-rule: at least three entries, or a switch of the output, or several producer threads
// PBT-assume: strings contain no line breaks | names consist of printable characters
// PBT-scale: 6
// PBT-schedules: yes
// PBT-copy: humoto/humoto/logger.h logger_single.h
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/humoto.h"
#include <thread>
#include <unistd.h>
#include <list>
// the single-threaded variant of the logger, next to the threaded one
#undef HUMOTO_USE_THREADS_FOR_LOGGING
#undef HUMOTO_GLOBAL_LOGGER_ENABLED
namespace single {
#include "logger_single.h"
}
humoto::Logger g_unused(std::cout);
namespace humoto { Logger g_logger(std::cout); }
typedef single::humoto::Logger SLogger; typedef single::humoto::LogEntryName SName;
struct Entry { char k; std::string name; double d; long i; std::string s; Eigen::MatrixXd m; std::vector<double> v; };
static std::string str(pbt::Case&g){ std::string s; for(int n=g.size(0,8,2000);n>0;--n) s+=(char)g.range(32,126); return s; }
static double val(pbt::Case&g){ switch(g.range(0,6)){ case 0: return 0; case 1: return g.range(-9,9); case 2: return g.flip()?std::numeric_limits<double>::infinity():-1e20; case 3: return std::numeric_limits<double>::quiet_NaN(); case 4: return std::ldexp(g.real(-1,1),g.range(-300,300)); default: return g.real(-1000,1000); } }
template<class N> static N name(pbt::Case&g,std::string&model)
{
    N n; int k=g.range(0,4);
    for(int i=0;i<k;++i) switch(g.range(0,3)){ case 0: { std::string s; for(int j=g.range(0,4);j>0;--j) s+=(char)('a'+g.range(0,25)); if(g.flip()) n.add(s); else n.add(s.c_str()); if(!s.empty()) model+=(model.empty()?"":".")+s; break; } case 1: { std::size_t x=g.flip()?g.range(0,3):g.range(0,100000); n.add(x); model+="{"+std::to_string(x+1)+"}"; break; } case 2: { N c(n); c.add("other"); break; } default: { if(i==0){ std::string s="root"; n=g.flip()?N(s):N(s.c_str()); model=s; } } }
    { std::ostringstream o; o<<n; PBT_CHECK(o.str()==model,"name is written as '"<<o.str()<<"' instead of '"<<model<<"'"); } PBT_CHECK(n.getAsString()==model,"name is '"<<n.getAsString()<<"' instead of '"<<model<<"'"); return n;
}
template<class L,class N> static Entry logOne(pbt::Case&g,L&l,const std::string&prefix="")
{
    Entry e; e.k=g.pick(std::vector<char>{'d','i','s','m','v','b','x','r','R','c','y','w','z'}); std::string mn=prefix; N n(prefix); std::string tmp; N q=name<N>(g,tmp); n.add(q.getAsString()); if(!tmp.empty()) mn+=(mn.empty()?"":".")+tmp; e.name=mn;
    switch(e.k)
    {
        case 'd': e.d=val(g); l.log(n,e.d); break;
        case 'i': e.i=g.range(-1000000,1000000); if(g.flip()){ l.log(n,(int)e.i); } else { l.log(n,(std::ptrdiff_t)e.i); } break;
        case 'b': e.i=g.flip(); l.log(n,(bool)e.i); break;
        case 's': e.s=str(g); l.log(n,e.s); break;
        case 'c': e.s=str(g); if(std::is_same<L,humoto::Logger>::value) l.log(n,e.s.c_str()); else l.log(n,e.s); break; // the single-threaded logger prints character arrays as is
        case 'm': e.m.resize(g.size(1,4,20),g.size(1,4,20)); for(int i=0;i<e.m.size();++i) e.m.data()[i]=val(g); l.log(n,e.m); break;
        case 'x': { e.m.resize(3,2); for(int i=0;i<6;++i) e.m(i/2,i%2)=val(g); Eigen::Matrix<double,3,2> f=e.m; l.log(n,f); break; }
        case 'y': { e.m.resize(2,3); for(int i=0;i<6;++i) e.m(i/3,i%3)=val(g); Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor> f=e.m; if(g.flip()) l.log(n,f); else l.log(n,f.transpose().transpose()); break; }
        case 'w': { e.m.resize(g.size(1,5,60),1); for(int i=0;i<e.m.size();++i) e.m(i)=val(g); Eigen::VectorXd f=e.m; if(g.flip()) l.log(n,f); else l.log(n,2*f-f); if(true) for(int i=0;i<e.m.size();++i) if(!std::isfinite(e.m(i))) e.m(i)=std::numeric_limits<double>::quiet_NaN(); break; }
        case 'z': { e.m.resize(1,1); e.m(0,0)=val(g); l.log(n,e.m.block(0,0,1,1)); break; }
        case 'v': { for(int i=g.size(0,5,200);i>0;--i) e.v.push_back(val(g)); l.log(n,e.v); break; }
        case 'r': e.s=str(g); l.log(e.s); break;
        case 'R': e.i=g.range(-50,50); l.log(e.i); break;
    }
    return e;
}
// ---- parser of the documented format
struct Parser { const std::string&t; size_t p; explicit Parser(const std::string&t_):t(t_),p(0){}
    void lit(const std::string&s,const char*what){ PBT_CHECK(t.compare(p,s.size(),s)==0,what<<": expected '"<<s<<"' at position "<<p<<", found '"<<t.substr(p,40)<<"'"); p+=s.size(); }
    void skip(){ while(p<t.size()&&t[p]==' ') ++p; }
    void number(double want,const char*what,bool loose=false){ skip(); const char*b=t.c_str()+p; char*e; double x=strtod(b,&e); PBT_CHECK(e!=b,what<<": no number at '"<<t.substr(p,30)<<"'"); p+=e-b; bool ok=(x!=x&&(want!=want||(loose&&!std::isfinite(want))))||x==want||(loose&&want!=want&&!std::isfinite(x))||std::fabs(x-want)<=2e-15*std::fabs(want)*10; PBT_CHECK(ok,what<<": printed "<<x<<" for "<<want); }
};
static void parse(Parser&q,const Entry&e)
{
    if(e.k=='r'){ q.lit(e.s+"\n","raw string"); return; } if(e.k=='R'){ q.number(e.i,"raw number"); q.lit("\n","raw number"); return; }
    q.lit(e.name+" = ","entry");
    switch(e.k)
    {
        case 'd': q.number(e.d,"scalar"); q.lit(";\n","scalar"); break;
        case 'i': case 'b': q.number(e.i,"integer"); q.lit(";\n","integer"); break;
        case 's': case 'c': q.lit("'"+e.s+"';\n","string"); break;
        case 'v': q.lit("[","vector"); for(size_t i=0;i<e.v.size();++i){ q.number(e.v[i],"vector"); if(i+1<e.v.size()) q.lit(";","vector"); } q.lit("];\n","vector"); break;
        default: q.lit("...\n[","matrix"); for(int i=0;i<e.m.rows();++i){ for(int j=0;j<e.m.cols();++j){ q.number(e.m(i,j),"matrix",e.k=='w'); if(j+1<e.m.cols()) q.lit(",","matrix"); } if(i+1<e.m.rows()){ q.lit(";\n","matrix"); } } q.lit("];\n","matrix"); }
}
static void check(const std::string&text,const std::vector<Entry>&h){ Parser q(text); for(auto&e:h) parse(q,e); PBT_CHECK(q.p==text.size(),"unexpected text after the last entry: '"<<text.substr(q.p,60)<<"'"); }
static void pause(pbt::Case&g){ switch(g.range(0,9)){ case 0: std::this_thread::sleep_for(std::chrono::microseconds(g.range(0,1500))); break; case 1: std::this_thread::yield(); break; default: break; } }
static std::string slurp(const std::string&f){ std::ifstream i(f.c_str()); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static std::string scratch(){ const char*s=getenv("PBT_SCRATCH"); return std::string(s&&*s?s:".")+"/log"+std::to_string(getpid()); }
struct Out { bool file; std::string name; std::shared_ptr<std::ostringstream> os; std::vector<Entry> h; std::string text()const{ return file?slurp(name):os->str(); } ~Out(){ if(file) ::unlink(name.c_str()); } };
static void threadedHistory(pbt::Case&g)
{
    std::list<Out> outs; int no=0; auto fresh=[&]{ outs.emplace_back(); Out&o=outs.back(); o.file=g.flip(); if(o.file) o.name=scratch()+"_"+std::to_string(no++); else o.os=std::make_shared<std::ostringstream>(); return &o; };
    bool switched=false; int total=0;
    {
        std::unique_ptr<humoto::Logger> l; Out*o=0; std::vector<Entry> pending; bool burst=g.chance(1,30); std::size_t sleep=burst&&g.flip()?g.range(4,30):g.range(0,3);
        if(g.chance(1,4)){ l.reset(g.flip()?new humoto::Logger(sleep):new humoto::Logger()); int n=g.range(0,3); for(int i=0;i<n;++i) pending.push_back(logOne<humoto::Logger,humoto::LogEntryName>(g,*l)); o=fresh(); if(o->file) l->initialize(o->name,sleep); else l->initialize(*o->os,sleep); o->h=pending; total+=n; }
        else { o=fresh(); if(o->file) l.reset(new humoto::Logger(o->name,sleep)); else l.reset(new humoto::Logger(*o->os,sleep)); }
        int n=g.range(0,12); for(int i=0;i<n;++i)
        {
            if(g.chance(1,10)){ o=fresh(); if(o->file) l->initialize(o->name,sleep); else l->initialize(*o->os,sleep); switched=true; }
            o->h.push_back(logOne<humoto::Logger,humoto::LogEntryName>(g,*l)); ++total; pause(g);
        }
        if(burst){ int b=g.size(1,2000,30000); for(int i=0;i<b;++i){ Entry e; e.name="burst{"+std::to_string(i+1)+"}"; if(i%3){ e.k='i'; e.i=i; l->log(humoto::LogEntryName("burst").add((std::size_t)i),i); } else { e.k='s'; e.s="e"+std::to_string(i); l->log(humoto::LogEntryName("burst").add((std::size_t)i),e.s); } o->h.push_back(e); } total+=b; g.tag("burst"); }
    }
    g.note("entries",total).note("outputs",outs.size()); g.tag(switched?"switched output":"one output"); g.nontrivial(total>2||switched); for(auto&o:outs) check(o.text(),o.h);
}
PBT_PROP(threaded,16000,300000){ threadedHistory(g); }
PBT_PROP(single_threaded,40000,500000)
{
    std::string f=scratch()+"_s"; Out o; o.file=g.flip(); o.name=f; o.os=std::make_shared<std::ostringstream>(); bool early=g.flip(); int n=g.range(0,12);
    { std::unique_ptr<SLogger> l; if(early){ l.reset(new SLogger()); if(o.file) l->initialize(o.name); else l->initialize(*o.os); } else { if(o.file) l.reset(new SLogger(o.name)); else l.reset(new SLogger(*o.os)); } for(int i=0;i<n;++i){ o.h.push_back(logOne<SLogger,SName>(g,*l)); if(g.chance(1,5)) check(o.text(),o.h); } }
    g.note("entries",n); g.nontrivial(n>2); check(o.text(),o.h);
}
// several threads share a logger: entries stay whole, each thread's entries stay in order
PBT_PROP(producers,4000,80000)
{
    int k=g.range(2,4); std::vector<int> cnt; std::vector<std::vector<int> > naps; int tot=0; for(int i=0;i<k;++i){ cnt.push_back(g.size(0,20,1500)); tot+=cnt.back(); naps.push_back(std::vector<int>()); for(int j=0;j<cnt.back();++j) naps.back().push_back(g.chance(1,6)?g.range(0,200):-1); } std::size_t sleep=g.range(0,2); std::ostringstream out;
    { humoto::Logger l(out,sleep); std::vector<std::thread> th; for(int i=0;i<k;++i) th.emplace_back([&,i]{ for(int j=0;j<cnt[i];++j){ Eigen::VectorXd v(3); v<<i,j,i*j; if(j%3==0) l.log(humoto::LogEntryName("t").add(i).add("n"),j); else if(j%3==1) l.log(humoto::LogEntryName("t").add((std::size_t)i).add("m"),v); else l.log(humoto::LogEntryName("t").add((std::size_t)i).add("s"),std::string("e")+std::to_string(j)); if(naps[i][j]>=0) std::this_thread::sleep_for(std::chrono::microseconds(naps[i][j])); } }); for(auto&t:th) t.join(); }
    std::string s=out.str(); size_t p=0; std::vector<int> next(k,0); int seen=0; while(p<s.size()){ int id=-1; PBT_CHECK(sscanf(s.c_str()+p,"t{%d}",&id)==1&&id>=1&&id<=k,"broken entry at '"<<s.substr(p,40)<<"'"); int i=id-1,j=next[i]++; PBT_CHECK(j<cnt[i],"too many entries of a thread"); std::ostringstream w; w<<"t{"<<id<<"}"; if(j%3==0) w<<".n = "<<j<<";\n"; else if(j%3==1) w<<".m = ...\n["; else w<<".s = 'e"<<j<<"';\n"; PBT_CHECK(s.compare(p,w.str().size(),w.str())==0,"thread "<<i<<", entry "<<j<<": found '"<<s.substr(p,40)<<"'"); p+=w.str().size(); if(j%3==1){ Parser q(s); q.p=p; q.number(i,"m"); q.lit(";\n","m"); q.number(j,"m"); q.lit(";\n","m"); q.number(i*j,"m"); q.lit("];\n","m"); p=q.p; } ++seen; }
    PBT_CHECK(seen==tot,"lost entries: "<<seen<<" of "<<tot); g.note("threads",k).note("entries",tot); g.nontrivial(tot>1);
}
PBT_PROP(errors,2000,20000){ std::string bad=scratch()+"_none/x"; PBT_CHECK(pbt::throwsCleanly([&]{ humoto::Logger l(bad); }),"unwritable log file"); std::ostringstream os; std::vector<Entry> h; { humoto::Logger l; PBT_CHECK(pbt::throwsCleanly([&]{ l.initialize(bad); }),"unwritable log file"); for(int i=g.range(0,3);i>0;--i) h.push_back(logOne<humoto::Logger,humoto::LogEntryName>(g,l)); l.initialize(os); for(int i=g.range(0,3);i>0;--i) h.push_back(logOne<humoto::Logger,humoto::LogEntryName>(g,l)); } check(os.str(),h); g.nontrivial(!h.empty()); { humoto::Logger l; if(g.flip()) l.log("dropped"); } }
PBT_MAIN
