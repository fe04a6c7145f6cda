// Small property-based testing engine: every case is a pure function of a tape
// of bounded integer choices. Random tapes are generated from
// (seed, sub-property, case index); failing tapes are shrunk (delete / zero /
// minimise choices, each candidate evaluated in a forked child) and stored as
// replay files. The same entry point can be driven by libFuzzer (PBT_LIBFUZZER).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <stdexcept>
#include <limits>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

// Eigen's assertions (index out of range, size mismatch, bad comma
// initialisation) become exceptions, hence failures of the current case.
#ifdef PBT_COVERAGE
extern "C" int __llvm_profile_write_file(void);
#endif
namespace pbt { struct EigenAssert : std::runtime_error { using std::runtime_error::runtime_error; }; 
[[noreturn]] inline void eigenFail(const char *x, const char *f, int l){ throw EigenAssert(std::string("Eigen assertion failed: ")+x+" at "+f+":"+std::to_string(l)); } }
#ifndef PBT_NO_EIGEN_ASSERT
#define eigen_assert(x) do { if(!(x)) ::pbt::eigenFail(#x, __FILE__, __LINE__); } while(0)
#endif

namespace pbt
{
struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

typedef std::vector<uint64_t> Tape;

inline uint64_t splitmix(uint64_t &x){ uint64_t z=(x+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
inline uint64_t hashBytes(const void*p,size_t n,uint64_t h=1469598103934665603ULL){ const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;++i){h^=c[i];h*=1099511628211ULL;} return h; }

// state visible to signal handlers
static const size_t MAXTAPE = 1<<16;
struct Live { char sub[128]; long index; size_t n; uint64_t tape[MAXTAPE]; char path[512]; };
inline Live &live(){ static Live l; static bool init=false; if(!init){ init=true; l.index=-1; } return l; }

class Case
{
  public:
    enum Mode { RANDOM, REPLAY };
    Mode mode; uint64_t rng; const Tape *in; size_t pos; Tape out;
    bool nontrivial_; std::vector<std::string> tags; std::ostringstream notes_; bool want_notes;
    Case(uint64_t seed): mode(RANDOM), rng(seed), in(0), pos(0), nontrivial_(false), want_notes(false) {}
    Case(const Tape &t): mode(REPLAY), rng(0), in(&t), pos(0), nontrivial_(false), want_notes(true) {}

    // uniform in [0,n)
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if(n==0) n=1;
        if(mode==RANDOM) { v = splitmix(rng) % n; }
        else { v = pos<in->size() ? (*in)[pos] : 0; if(v>=n) v%=n; }
        ++pos;
        if(out.size()<MAXTAPE){ out.push_back(v); Live&l=live(); l.tape[l.n++]=v; if(l.n>=MAXTAPE) l.n=MAXTAPE-1; }
        return v;
    }
    int range(int lo,int hi){ return lo+(int)draw((uint64_t)((long)hi-lo+1)); }          // inclusive; shrinks to lo
    int size(int lo,int hi,int big){ return chance(1,40) ? range(lo,big) : range(lo,hi); } // dimensions and counts: usually small, now and then large
    bool flip(){ return draw(2)!=0; }
    bool chance(int num,int den){ return draw(den) >= (uint64_t)(den-num); }             // shrinks to false
    template<class T> const T& pick(const std::vector<T>&v){ return v[draw(v.size())]; }
    double unit(){ return (double)draw(1ULL<<53)/(double)(1ULL<<53); }
    // real number in [lo,hi]: small integers, quarter grid, or arbitrary
    double real(double lo,double hi)
    {
        switch(draw(4))
        {
            case 0: { long a=(long)std::ceil(lo), b=(long)std::floor(hi); if(a>b) return lo;
                      if(a<=0&&b>=0){ long k=(long)draw(std::min<long>(b-a+1,41)); long v=(k&1)?(k+1)/2:-(k/2); if(v<a||v>b) v = v<a? b-(a-v)%(b-a+1) : a+(v-b)%(b-a+1); if(v<a)v=a; if(v>b)v=b; return (double)v; }
                      return (double)(a+(long)draw(std::min<long>(b-a+1,41))); }
            case 1: { double v=lo+(double)draw(33)*(hi-lo)/32.; return v; }
            default: return lo+unit()*(hi-lo);
        }
    }
    // positive magnitudes over several decades
    double positive(double lo,double hi){ double t=unit(); return std::exp(std::log(lo)+t*(std::log(hi)-std::log(lo))); }
    void nontrivial(bool b=true){ if(b) nontrivial_=true; }
    void tag(const std::string &s){ tags.push_back(s); }
    template<class T> Case& note(const std::string &k,const T&v){ if(want_notes) notes_<<k<<"="<<v<<"; "; return *this; }
    void discard(){ throw Discard(); }
};

inline void fail(const std::string &m){ throw Failure(m); }
#define PBT_CHECK(cond, msg) do { if(!(cond)) { std::ostringstream pbt_o_; pbt_o_<<std::setprecision(17)<<msg<<"  ["<<#cond<<"]"; ::pbt::fail(pbt_o_.str()); } } while(0)

inline bool close(double a,double b,double tol=1e-9,double scale=1.0)
{ if(std::isnan(a)||std::isnan(b)) return false; if(a==b) return true; return std::fabs(a-b) <= tol*(std::max(std::fabs(a),std::fabs(b))+scale); }
#define PBT_CLOSE(a,b,msg) do { double pa_=(a), pb_=(b); if(!::pbt::close(pa_,pb_)) { std::ostringstream o_; o_<<std::setprecision(17)<<msg<<": got "<<pa_<<" expected "<<pb_; ::pbt::fail(o_.str()); } } while(0)
#define PBT_CLOSE_TOL(a,b,tol,msg) do { double pa_=(a), pb_=(b); if(!::pbt::close(pa_,pb_,tol)) { std::ostringstream o_; o_<<std::setprecision(17)<<msg<<": got "<<pa_<<" expected "<<pb_; ::pbt::fail(o_.str()); } } while(0)

// matrices: entrywise difference relative to the largest magnitude involved
template<class A,class B> void checkMat(const A&a_,const B&b_,const std::string&msg,double tol=1e-9,double scale=1.0)
{
    auto a=a_.eval(); auto b=b_.eval();
    std::ostringstream o; o<<std::setprecision(12);
    if(a.rows()!=b.rows()||a.cols()!=b.cols()){ o<<msg<<": size "<<a.rows()<<"x"<<a.cols()<<" expected "<<b.rows()<<"x"<<b.cols(); fail(o.str()); }
    double m=scale;
    for(long i=0;i<a.rows();++i)for(long j=0;j<a.cols();++j){ double x=std::fabs((double)b(i,j)); if(std::isfinite(x)&&x>m)m=x; }
    for(long i=0;i<a.rows();++i)for(long j=0;j<a.cols();++j)
    {
        double x=a(i,j), y=b(i,j);
        bool ok = (x==y) || (std::isfinite(x)&&std::isfinite(y)&&std::fabs(x-y)<=tol*m);
        if(!ok){ o<<msg<<": entry ("<<i<<","<<j<<") got "<<x<<" expected "<<y<<"\n got:\n"<<a<<"\n expected:\n"<<b; fail(o.str()); }
    }
}
// f must throw a std::exception that is not an Eigen assertion
template<class F> bool throwsCleanly(F f)
{ try { f(); } catch(const EigenAssert&) { throw; } catch(const Failure&) { throw; } catch(const std::exception&) { return true; } return false; }

struct Sub { std::string name; void(*fn)(Case&); long quick, thorough; };
inline std::vector<Sub>& subs(){ static std::vector<Sub> s; return s; }
struct Reg { Reg(const char*n,void(*f)(Case&),long q,long t){ subs().push_back(Sub{n,f,q,t}); } };
#define PBT_PROP(id,q,t) static void pbt_f_##id(::pbt::Case&g); static ::pbt::Reg pbt_r_##id(#id,&pbt_f_##id,q,t); static void pbt_f_##id(::pbt::Case&g)

#ifndef PBT_CASE_CPU_S
#define PBT_CASE_CPU_S 30
#endif
#ifndef PBT_CASE_WALL_S
#define PBT_CASE_WALL_S 240
#endif

inline void armTimer(){ struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=PBT_CASE_CPU_S; setitimer(ITIMER_PROF,&t,0); alarm(PBT_CASE_WALL_S); }

inline void dumpLive(const char*why)
{
    Live&l=live(); if(!l.path[0]) return;
    int fd=open(l.path,O_CREAT|O_WRONLY|O_TRUNC,0644); if(fd<0) return;
    char b[64];
    #define W(s) do{ const char*_s=(s); if(write(fd,_s,strlen(_s))<0){} }while(0)
    W("sub="); W(l.sub); W("\nmessage="); W(why); if(l.index>=0){ char*p=b+63; *p=0; long v=l.index; do{ *--p='0'+(char)(v%10); v/=10; }while(v); W("\nindex="); W(p); } W("\ntape=");
    for(size_t i=0;i<l.n;++i){ char*p=b+63; *p=0; *--p=' '; uint64_t v=l.tape[i]; do{ *--p='0'+(char)(v%10); v/=10; }while(v); W(p); }
    W("\n"); ::close(fd);
    #undef W
}
inline void onSignal(int s)
{
    const char*w = s==SIGSEGV?"crash: segmentation fault": s==SIGABRT?"crash: abort": s==SIGFPE?"crash: arithmetic fault": s==SIGPROF?"hang: case exceeded its CPU limit": s==SIGALRM?"hang: case exceeded its wall limit": s==SIGBUS?"crash: bus error": s==SIGILL?"crash: illegal instruction":"crash: signal";
    dumpLive(w);
    _exit(s==SIGPROF||s==SIGALRM?78:77);
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void __asan_set_death_callback(void(*)(void));
inline void onAsan(){ dumpLive("crash: sanitizer report"); }
#define PBT_ASAN 1
#endif
#endif
inline void installHandlers()
{
    static char stk[1<<16]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=stk; ss.ss_size=sizeof stk; sigaltstack(&ss,0);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onSignal; sa.sa_flags=SA_ONSTACK;
    int sg[]={SIGABRT,SIGFPE,SIGPROF,SIGALRM,SIGILL,SIGBUS,SIGSEGV}; for(int s:sg) sigaction(s,&sa,0);
#ifdef PBT_ASAN
    __asan_set_death_callback(&onAsan);
#endif
}

enum Outcome { PASS, FAIL, DISCARD };
inline Outcome runCase(const Sub&s,Case&c,std::string&msg)
{
    Live&l=live(); l.n=0; strncpy(l.sub,s.name.c_str(),sizeof l.sub-1);
    armTimer();
    try { s.fn(c); return PASS; }
    catch(const Discard&){ return DISCARD; }
    catch(const Failure&e){ msg=e.what(); return FAIL; }
    catch(const std::exception&e){ msg=std::string("unexpected exception: ")+e.what(); return FAIL; }
    catch(const std::string&e){ msg=std::string("unexpected exception (string): ")+e; return FAIL; }
    catch(...){ msg="unexpected exception"; return FAIL; }
}

// evaluate in a forked child: true if the case fails (or crashes)
inline bool failsForked(const Sub&s,const Tape&t)
{
    fflush(stdout); fflush(stderr);
    pid_t p=fork();
    if(p==0){ int n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); live().path[0]=0; Case c(t); c.want_notes=false; std::string m; Outcome o=runCase(s,c,m); _exit(o==FAIL?1:0); }
    int st=0; waitpid(p,&st,0);
    return !(WIFEXITED(st)&&WEXITSTATUS(st)==0);
}
inline Tape shrink(const Sub&s,Tape t,bool slow)
{
    int budget= slow? 12 : 1500; time_t end=time(0)+ (slow?200:25);
    const char*rep=getenv("PBT_SCHEDULES"); int times=rep&&*rep?4:1; // outcomes that depend on the schedule: keep what fails every time
    auto ok=[&](const Tape&c){ if(budget<=0||time(0)>end) return false; --budget; for(int i=0;i<times;++i) if(!failsForked(s,c)) return false; return true; };
    while(!t.empty()&&t.back()==0) t.pop_back();
    bool progress=true;
    while(progress&&budget>0&&time(0)<=end)
    {
        progress=false;
        for(size_t k=std::max<size_t>(1,t.size()/2);;k/=2)
        {
            for(size_t i=0;i<t.size();)
            {
                Tape c(t); c.erase(c.begin()+i,c.begin()+std::min(t.size(),i+k));
                if(ok(c)){ t=c; progress=true; }
                else { bool nz=false; Tape z(t); for(size_t j=i;j<std::min(t.size(),i+k);++j){ if(z[j]) nz=true; z[j]=0; }
                       if(nz&&ok(z)){ t=z; progress=true; } i+=k; }
            }
            if(k<=1) break;
        }
        for(size_t i=0;i<t.size();++i)
        {
            uint64_t lo=0,hi=t[i];
            while(lo<hi){ uint64_t mid=lo+(hi-lo)/2; Tape c(t); c[i]=mid; if(ok(c)){ t=c; hi=mid; progress=true; } else lo=mid+1; }
        }
    }
    return t;
}
inline std::string oneLine(std::string s){ for(char&c:s) if(c=='\n') c='|'; return s; }
inline void writeReplay(const std::string&path,const Sub&s,const Tape&t,const std::string&msg,const std::string&notes)
{
    std::ofstream f(path.c_str()); f<<"sub="<<s.name<<"\nmessage="<<oneLine(msg)<<"\ntape="; for(uint64_t v:t) f<<v<<" "; f<<"\nnotes="<<oneLine(notes)<<"\n";
}
inline bool readReplay(const std::string&path,std::string&sub,Tape&t)
{
    std::ifstream f(path.c_str()); std::string l; bool ok=false;
    while(std::getline(f,l)){ if(l.compare(0,4,"sub=")==0) sub=l.substr(4); if(l.compare(0,5,"tape=")==0){ std::istringstream i(l.substr(5)); uint64_t v; t.clear(); while(i>>v) t.push_back(v); ok=true; } }
    return ok;
}
// a session: earlier cases of the same process, then the failing one (for failures that need state left behind by other objects)
inline uint64_t caseSeed(const std::string&sub,uint64_t seed,long i){ uint64_t h=hashBytes(sub.data(),sub.size()); h^=seed*0x9E3779B97F4A7C15ULL; h+=(uint64_t)i*0xD1342543DE82EF95ULL; splitmix(h); return h; }
inline const Sub* findSub(const std::string&n){ for(const Sub&s:subs()) if(s.name==n) return &s; return 0; }
inline std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126) o+='?'; else o+=c; } return o; }

inline int mainRun(int argc,char**argv)
{
    std::string mode=argc>1?argv[1]:""; installHandlers();
    if(mode=="list"){ for(const Sub&s:subs()) printf("%s %ld %ld\n",s.name.c_str(),s.quick,s.thorough); return 0; }
    if(mode=="replay")
    {   // replay FILE : exit 1 if it fails
        std::string sn; Tape t; if(argc<3) return 3; live().index=-1;
        { std::ifstream f(argv[2]); std::string l,fsub; uint64_t seed=0; long fidx=-1; while(std::getline(f,l)){ std::istringstream in(l.substr(std::min(l.size(),l.find('=')+1))); if(l.compare(0,13,"session_seed=")==0) in>>seed; 
            if(l.compare(0,6,"prior=")==0){ std::string sub; long a,b,st; while(in>>sub>>a>>b>>st){ const Sub*q=findSub(sub); if(q) for(long i=a;i<=b;i+=st){ Case c(caseSeed(sub,seed,i)); c.want_notes=false; std::string m; runCase(*q,c,m); } } }
            if(l.compare(0,6,"final=")==0) in>>fsub>>fidx; }
          if(fidx>=0){ const Sub*q=findSub(fsub); if(!q) return 3; Case c(caseSeed(fsub,seed,fidx)); c.want_notes=true; std::string m; if(runCase(*q,c,m)==FAIL){ printf("FAIL %s (after earlier cases in the same process): %s\n  case: %s\n",fsub.c_str(),m.c_str(),c.notes_.str().c_str()); return 1; } printf("PASS %s\n",fsub.c_str()); return 0; } }
        if(!readReplay(argv[2],sn,t)) return 3; const Sub*s=findSub(sn); if(!s) return 3;
        Case c(t); std::string m; Outcome o=runCase(*s,c,m);
        if(o==FAIL){ printf("FAIL %s: %s\n  case: %s\n",sn.c_str(),m.c_str(),c.notes_.str().c_str()); return 1; }
        printf("%s %s\n", o==PASS?"PASS":"DISCARD", sn.c_str()); return 0;
    }
    if(mode=="shrink")
    {   // shrink IN OUT
        std::string sn; Tape t; if(argc<4||!readReplay(argv[2],sn,t)) return 3; const Sub*s=findSub(sn); if(!s) return 3;
        std::ifstream f(argv[2]); std::string l,msg; while(std::getline(f,l)) if(l.compare(0,8,"message=")==0) msg=l.substr(8);
        Tape r=shrink(*s,t,msg.compare(0,4,"hang")==0); writeReplay(argv[3],*s,r,msg,""); return 0;
    }
    if(mode!="run"||argc<8) return 3;
    // run SEED TIER SHARD NSHARDS OUTDIR SCALE [sub]
    uint64_t seed=strtoull(argv[2],0,10); bool thorough=!strcmp(argv[3],"thorough"); int shard=atoi(argv[4]),ns=atoi(argv[5]); std::string out=argv[6]; double scale=atof(argv[7]); std::string only=argc>8?argv[8]:"";
    std::string base=out+"/s"+std::to_string(shard);
    strncpy(live().path,(base+".crash").c_str(),sizeof live().path-1);
    std::ofstream js((base+".json").c_str()); std::ofstream hs((base+".hash").c_str(),std::ios::binary);
    js<<"{\"subs\":["; bool first=true; int rc=0;
    for(const Sub&s:subs())
    {
        if(!only.empty()&&only!=s.name) continue;
        long n=(long)((thorough?s.thorough:s.quick)*scale); if(n<1) n=1;
        long ran=0,disc=0,nt=0; std::map<std::string,long> tags; std::vector<std::string> samples; std::unordered_set<uint64_t> seen;
        for(long i=shard;i<n;i+=ns)
        {
            live().index=i; Case c(caseSeed(s.name,seed,i)); c.want_notes = samples.size()<2; std::string m; Outcome o=runCase(s,c,m); ++ran;
            if(o==DISCARD){ ++disc; continue; }
            if(o==FAIL)
            {
                std::ofstream(base+".failing")<<m; armTimer(); alarm(0);
                struct itimerval t; memset(&t,0,sizeof t); setitimer(ITIMER_PROF,&t,0);
                Tape t0=c.out, r=shrink(s,t0,false); std::string m2=m; { Case c2(r); if(runCase(s,c2,m2)!=FAIL){ r=t0; m2=m; } Case c3(r); std::string m3; runCase(s,c3,m3); writeReplay(base+".fail",s,r,m2,c3.notes_.str()); writeReplay(base+".fail0",s,t0,m,""); std::ofstream(base+".fail0",std::ios::app)<<"index="<<i<<"\n"; }
                rc=1; break;
            }
            for(auto&t:c.tags) ++tags[t];
            if(c.nontrivial_){ uint64_t hh=hashBytes(c.out.data(),c.out.size()*8,hashBytes(s.name.data(),s.name.size())); if(seen.insert(hh).second){ ++nt; hs.write((const char*)&hh,8); } if(samples.size()<2&&c.want_notes){ std::string z=s.name+": "+c.notes_.str(); if(z.size()>600) z=z.substr(0,600)+"..."; samples.push_back(z);} }
        }
        js<<(first?"":",")<<"{\"name\":\""<<s.name<<"\",\"cases\":"<<ran<<",\"discarded\":"<<disc<<",\"nontrivial\":"<<nt<<",\"tags\":{"; first=false;
        bool f2=true; for(auto&t:tags){ js<<(f2?"":",")<<"\""<<jesc(t.first)<<"\":"<<t.second; f2=false; } js<<"},\"samples\":["; f2=true; for(auto&t:samples){ js<<(f2?"":",")<<"\""<<jesc(t)<<"\""; f2=false; } js<<"]}";
        if(rc) break;
    }
    js<<"]}\n"; js.close(); hs.close(); fflush(stdout);
#ifdef PBT_COVERAGE
    __llvm_profile_write_file();
#endif
    _exit(rc);
}
}

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t*d,size_t n)
{
    using namespace pbt; static bool init=false; if(!init){ init=true; const char*p=getenv("PBT_OUT"); if(p) strncpy(live().path,p,sizeof live().path-1);
#ifdef PBT_ASAN
        __asan_set_death_callback(&onAsan);
#endif
    }
    if(n<2||n>8192) return 0;
    const Sub&s=subs()[d[0]%subs().size()];
    // one byte per choice; 0xFF escapes to a six-byte value
    Tape t; size_t i=1; while(i<n){ if(d[i]==0xFF&&i+6<n){ uint64_t v=0; for(int k=1;k<=6;++k) v=(v<<8)|d[i+k]; t.push_back(v<<1); i+=7; } else t.push_back(d[i++]); }
    Case c(t); c.want_notes=false; std::string m; Outcome o=runCase(s,c,m); armTimer(); alarm(0); 
    if(o==FAIL){ writeReplay(getenv("PBT_OUT")?getenv("PBT_OUT"):"/dev/stderr",s,c.out,m,""); _exit(77); }
    return 0;
}
#define PBT_MAIN
#else
#define PBT_MAIN int main(int argc,char**argv){ return pbt::mainRun(argc,argv); }
#endif
