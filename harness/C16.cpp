// PBT-rule: at least two steps, and time advanced over at least three stances
// PBT-assume: every stance lasts at least 1 ms
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
namespace wk=humoto::walking; typedef wk::StanceType ST; typedef wk::StanceSubType SS;
struct Item { ST::Type type; std::size_t dur; ST::Type prevNonDs,prevNonTds; int sub; }; // sub: -1 unspecified
struct Walk { std::vector<Item> it; ST::Type first,ss; std::size_t steps,d1,dss,dtds,dlast;
    // reference walk: a plain list of stances, the last double support repeats for ever
    void build(std::size_t extra){ it.clear(); bool ds=first==ST::DS; std::size_t n=ds&&ss==ST::UNDEFINED?0:steps; ST::Type nonds=ds?(ss==ST::LSS?ST::RSS:ss==ST::RSS?ST::LSS:ST::UNDEFINED):first,nontds=ST::UNDEFINED; it.push_back(Item{first,d1,nonds,nontds,SS::FIRST}); nontds=first;
        if(n>0||!ds){ for(std::size_t i=0;i<n;++i){ it.push_back(Item{ST::TDS,dtds,nonds,nontds,SS::INTERMEDIATE}); ST::Type s=nonds==ST::LSS?ST::RSS:ST::LSS; it.push_back(Item{s,dss,nonds,nontds,SS::INTERMEDIATE}); nonds=nontds=s; } it.push_back(Item{ST::TDS,dtds,nonds,nontds,SS::INTERMEDIATE}); it.push_back(Item{ST::DS,dlast,nonds,nontds,SS::LAST}); }
        for(std::size_t i=0;i<extra;++i) it.push_back(Item{ST::DS,dlast,nonds,ST::DS,-1}); }
    std::size_t lastIndex()const{ return first==ST::DS&&(steps==0||ss==ST::UNDEFINED)?0:2*steps+2; } };
static Walk gen(pbt::Case&g,wk::StanceFSMParameters&p)
{
    Walk w; w.first=g.chance(1,4)?(g.flip()?ST::LSS:ST::RSS):ST::DS; w.ss=g.chance(1,6)?ST::UNDEFINED:g.flip()?ST::LSS:ST::RSS; w.steps=g.chance(1,5)?0:g.chance(1,20)?g.range(2,40):g.range(2,8); int unit=g.pick(std::vector<int>{1,1,20,100}); if(g.chance(1,12)){ unit=g.pick(std::vector<int>{1000,3000,10000,80000}); g.tag("long stances"); } auto d=[&]{ return (std::size_t)(unit*(g.chance(1,4)?1:g.range(1,9))); }; w.d1=d(); w.dss=d(); w.dtds=d(); w.dlast=d();
    p.first_stance_=w.first; p.first_ss_type_=w.ss; p.num_steps_=w.steps; p.first_stance_duration_ms_=w.d1; p.ss_duration_ms_=w.dss; p.tds_duration_ms_=w.dtds; p.last_stance_duration_ms_=w.dlast;
    g.note("first",(int)w.first); g.note("first_ss",(int)w.ss); g.note("steps",w.steps); g.note("durations",std::to_string(w.d1)+"/"+std::to_string(w.dss)+"/"+std::to_string(w.dtds)+"/"+std::to_string(w.dlast)); return w;
}
static wk::StanceFiniteStateMachine make(pbt::Case&g,const wk::StanceFSMParameters&p){ if(g.flip()) return wk::StanceFiniteStateMachine(p); wk::StanceFiniteStateMachine f; if(g.flip()) f.shiftTime(g.range(0,5000)); f.setParameters(p); return f; }
static void same(const wk::Stance&s,const Item&e,const char*what){ PBT_CHECK(s.type_==e.type,what<<": stance type "<<(int)s.type_<<" instead of "<<(int)e.type); PBT_CHECK(s.previous_nonds_stance_type_==e.prevNonDs,what<<": previous single support "<<(int)s.previous_nonds_stance_type_<<" instead of "<<(int)e.prevNonDs); PBT_CHECK(s.previous_nontds_stance_type_==e.prevNonTds,what<<": previous stance "<<(int)s.previous_nontds_stance_type_<<" instead of "<<(int)e.prevNonTds); if(e.sub>=0) PBT_CHECK((int)s.subtype_==e.sub,what<<": subtype "<<(int)s.subtype_<<" instead of "<<e.sub); }
static std::string state(const wk::StanceFiniteStateMachine&f){ std::stringstream s; s<<f.is_tds_started_<<","<<f.ss_states_to_termination_<<","<<f.current_time_ms_<<","<<f.current_stance_.type_<<","<<f.current_stance_.subtype_<<","<<f.current_stance_.duration_ms_<<","<<f.current_stance_.previous_nonds_stance_type_<<","<<f.current_stance_.previous_nontds_stance_type_; return s.str(); }
// the stance and the elapsed time after t ms of the walk
static std::size_t at(const Walk&w,std::size_t t,std::size_t&off){ std::size_t i=0; for(;i+1<w.it.size()&&t>=w.it[i].dur;++i) t-=w.it[i].dur; off=t; return i; }
static void checkPreview(const Walk&w,std::size_t t,const std::vector<wk::Stance>&p,std::size_t len)
{
    std::size_t off,i=at(w,t,off),last=w.lastIndex(),left=len,k=0;
    for(;left>0;++k,++i)
    {
        std::size_t rest=w.it[i].dur-off; off=0;
        if(i>=last&&left>rest){ // the walk ends within the preview: only stances which surely follow are listed
            PBT_CHECK(p.size()<=k+1,"the preview lists stances after the end of the walk"); if(p.size()==k+1){ same(p[k],w.it[i],"previewed last stance"); PBT_CHECK(p[k].duration_ms_>=rest&&p[k].duration_ms_<=left,"duration of the previewed last stance"); } return; }
        PBT_CHECK(k<p.size(),"the preview is too short: "<<p.size()<<" stances, "<<left<<" ms missing"); same(p[k],w.it[i],"previewed stance"); PBT_CHECK(p[k].duration_ms_==std::min(rest,left),"previewed stance "<<k<<" lasts "<<p[k].duration_ms_<<" instead of "<<std::min(rest,left)); PBT_CHECK(p[k].total_duration_ms_==w.it[i].dur,"total duration of previewed stance "<<k<<" is "<<p[k].total_duration_ms_<<" instead of "<<w.it[i].dur);
        left-=std::min(rest,left);
    }
    if(k>0&&w.it[i-1].type==ST::TDS){ PBT_CHECK(p.size()==k+1,"a preview that ends in a transition must tell the stance after it"); same(p[k],w.it[i],"stance after the transition"); PBT_CHECK(p[k].duration_ms_==0,"the stance after the preview has a duration"); } else PBT_CHECK(p.size()==k,"the preview has "<<p.size()<<" stances instead of "<<k);
}
PBT_PROP(history, 40000, 2000000)
{
    wk::StanceFSMParameters p; Walk w=gen(g,p); wk::StanceFiniteStateMachine f=make(g,p); w.build(60); std::size_t total=0; for(auto&i:w.it) total+=i.dur; std::size_t t=0,limit=0; for(std::size_t i=0;i<w.it.size()-30;++i) limit+=w.it[i].dur;
    int n=g.range(1,15); std::size_t seen=0;
    for(int s=0;s<n;++s)
    {
        std::size_t off,i=at(w,t,off); seen=i;
        same(f.current_stance_,w.it[i],"current stance"); PBT_CHECK(f.current_stance_.duration_ms_==w.it[i].dur,"stance "<<i<<" lasts "<<f.current_stance_.duration_ms_<<" instead of "<<w.it[i].dur); PBT_CHECK(f.current_time_ms_==off,"elapsed time "<<f.current_time_ms_<<" instead of "<<off);
        if(w.it[i].type!=ST::DS||i==0) PBT_CHECK(f.is_tds_started_==(w.it[i].type==ST::TDS&&off==0),"start of a transition is reported "<<f.is_tds_started_<<" in stance "<<(int)w.it[i].type<<" after "<<off<<" ms");
        switch(g.range(0,5))
        {
            case 0: case 1: { std::size_t dt=g.chance(1,8)?0:g.chance(1,3)?w.it[i].dur-off:g.chance(1,2)?g.range(1,20):g.chance(1,2)?g.range(1,2000):g.range(1,(int)std::min<std::size_t>(1000000000,2*(w.it[i].dur+w.it[i+1].dur))); if(t+dt>limit) break; if(dt==0){ std::string b=state(f); f.shiftTime(0); PBT_CHECK(state(f)==b,"advancing by no time changes the walk"); break; } g.note("advance",dt);
                if(g.flip()) f.shiftTime(dt); else { wk::StanceFiniteStateMachine once(f); once.shiftTime(dt); std::size_t left=dt; while(left>0){ std::size_t part=g.chance(1,3)?left:1+g.range(0,99999)%left; f.shiftTime(part); left-=part; } PBT_CHECK(state(f)==state(once),"advancing in parts leads to another state: "<<state(f)<<" instead of "<<state(once)); }
                t+=dt; break; }
            case 2: if(t+w.it[i].dur-off<=limit){ f.shiftStance(); t+=w.it[i].dur-off; } break;
            case 3: { std::string b=state(f); wk::Stance nx=f.getNextStance(); PBT_CHECK(state(f)==b,"asking for the next stance changes the walk"); same(nx,w.it[i+1],"next stance"); PBT_CHECK(nx.duration_ms_==w.it[i+1].dur,"duration of the next stance"); break; }
            case 4: if(g.chance(1,10)){ f.setParameters(p); t=0; PBT_CHECK(f.current_time_ms_==0,"a new walk starts at time zero"); } break;
            default: { std::size_t len=g.chance(1,6)?0:g.chance(1,2)?g.range(1,30):g.range(1,4000); if(g.chance(1,3)){ std::size_t k=i; len=w.it[i].dur-off; for(int m=g.range(0,3);m>0&&k+1<w.it.size();--m) len+=w.it[++k].dur; } std::size_t reach=0; for(std::size_t k=i;k<w.it.size();++k) reach+=w.it[k].dur; if(len+off>=reach) break; g.note("preview",len); std::string b=state(f); std::vector<wk::Stance> q=f.previewStances(len); PBT_CHECK(state(f)==b,"a preview changes the walk"); checkPreview(w,t,q,len); }
        }
    }
    g.nontrivial(w.steps>=2&&seen>=3);
}
PBT_PROP(structure, 20000, 1000000)
{
    // the shape of the walk, independently of durations
    wk::StanceFSMParameters p; Walk w=gen(g,p); wk::StanceFiniteStateMachine f=make(g,p); g.nontrivial(w.steps>=2); std::size_t n=w.first==ST::DS&&w.ss==ST::UNDEFINED?0:w.steps; std::size_t ss=0; ST::Type prev=f.current_stance_.type_,foot=ST::UNDEFINED; PBT_CHECK(prev==w.first,"the walk starts in a wrong stance"); if(w.first!=ST::DS) foot=w.first; bool done=false;
    for(std::size_t i=0;i<2*n+20;++i)
    {
        f.shiftStance(); ST::Type c=f.current_stance_.type_;
        if(done) PBT_CHECK(c==ST::DS,"the walk continues after its end");
        else if(prev==ST::LSS||prev==ST::RSS) PBT_CHECK(c==ST::TDS,"a single support is not followed by a transition");
        else if(prev==ST::TDS){ PBT_CHECK(c==ST::LSS||c==ST::RSS||c==ST::DS,"a transition is followed by another one"); if(c!=ST::DS){ ++ss; if(foot==ST::UNDEFINED) PBT_CHECK(c==w.ss,"the walk starts with the wrong foot"); else PBT_CHECK(c!=foot,"the same foot supports twice"); foot=c; PBT_CHECK(wk::determineSupportFoot(c)==(c==ST::LSS?humoto::LeftOrRight::LEFT:humoto::LeftOrRight::RIGHT),"support foot"); } else { PBT_CHECK(ss==n,"the walk ends after "<<ss<<" steps instead of "<<n); PBT_CHECK(f.current_stance_.subtype_==SS::LAST,"the final stance is not marked as last"); done=true; } }
        else PBT_CHECK(c==ST::TDS?n>0:c==ST::DS&&n==0,"the first stance is followed by "<<(int)c);
        if(c==ST::TDS||c==ST::DS) PBT_CHECK(pbt::throwsCleanly([&]{ wk::determineSupportFoot(c); }),"a double support has no support foot");
        PBT_CHECK(f.current_stance_.duration_ms_==p.getDurationMs(c)&&p.getDurationMs(c)==(c==ST::DS?w.dlast:c==ST::TDS?w.dtds:w.dss),"duration of a stance of type "<<(int)c); PBT_CHECK(f.current_time_ms_==0,"a new stance does not start from its beginning"); prev=c;
    }
    PBT_CHECK(done||(n==0&&w.first==ST::DS),"the walk does not end"); PBT_CHECK(ss==n,"number of steps");
    wk::StanceFSMParameters bad; bad.num_steps_=1; PBT_CHECK(pbt::throwsCleanly([&]{ wk::StanceFiniteStateMachine x(bad); }),"a walk of one step is accepted"); bad=wk::StanceFSMParameters(); bad.first_stance_=ST::TDS; PBT_CHECK(pbt::throwsCleanly([&]{ wk::StanceFiniteStateMachine x(bad); }),"a walk that starts in a transition is accepted"); bad=wk::StanceFSMParameters(); bad.first_ss_type_=ST::DS; PBT_CHECK(pbt::throwsCleanly([&]{ wk::StanceFiniteStateMachine x(bad); }),"a first step that is not a single support is accepted");
    PBT_CHECK(pbt::throwsCleanly([&]{ p.getDurationMs(ST::UNDEFINED); }),"duration of an undefined stance");
}
PBT_MAIN
