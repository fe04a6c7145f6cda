// PBT-rule: at least one object with non-default values was written and read back
// PBT-assume: configuration is stored with the msgpack bridge (the YAML bridge: C32) | values accepted by the class (finalize() does not reject them)
// PBT-scale: 5
// PBT-flags: -I{V}/lib/stubs
#include "config_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cf;
struct RoundTrip { pbt::Case&g; explicit RoundTrip(pbt::Case&g_):g(g_){}
    template<class T> void run()
    {
        T a; generate(g,a); T b; if(g.flip()) generate(g,b); Obj want=collect(a); g.note("class",Name<T>::n()).note("values",canon(want).substr(0,300)); g.nontrivial(canon(want)!=canon(collect(T()))); g.tag(Name<T>::n());
        TmpFile f; std::string node=text(g); int how=g.range(0,5); V like; like.k='o'; like.m=want;
        switch(how)
        {
            case 0: a.template writeConfig<Writer>(f.name); b.template readConfig<Reader>(f.name); break;
            case 1: a.template writeConfig<Writer>(f.name,node); b.template readConfig<Reader>(f.name,node); break;
            case 2: { Writer w(f.name); a.writeConfig(w); } { Reader r(f.name); b.readConfig(r); } break;
            case 3: { Writer w(f.name); a.writeConfig(w,node); w.flush(); Reader r(f.name); b.readConfig(r,node); } break;
            case 4: { std::string z("node"); a.template writeConfig<Writer>(f.name,z); b.template readConfig<Reader>(f.name,"node",g.flip()); Reader r(f.name); b.readConfig(r,"node"); } break;
            default: { { T junk; generate(g,junk); junk.template writeConfig<Writer>(f.name); } a.template writeConfig<Writer>(f.name); b.template readConfig<Reader>(f.name,g.flip()); } break;
        }
        PBT_CHECK(canon(collect(b))==canon(want),Name<T>::n()<<" (way "<<how<<"): read "<<canon(collect(b)).substr(0,600)<<" written "<<canon(want).substr(0,600)); checkDerived(b); PBT_CHECK(canon(collect(a))==canon(want),"writing changed the object");
        auto s=sections(f.name); PBT_CHECK(s.size()==1,"number of sections"); V got=decode(s[0].second->get().via.map.ptr[0].val,like); PBT_CHECK(canon(got)==canon(like),"file contains "<<canon(got).substr(0,600)<<" instead of "<<canon(like).substr(0,600)); if(how==1||how==3) PBT_CHECK(s[0].first==node,"name of the section");
        // written by someone else, sections and entries in any order
        if(g.flip()){ Obj o=want; for(size_t i=o.size();i>1;--i) std::swap(o[i-1],o[g.range(0,(int)i-1)]); msgpack::sbuffer buf; section(buf,"x",o); save(f.name,buf); T c; generate(g,c); c.template readConfig<Reader>(f.name,"x"); PBT_CHECK(canon(collect(c))==canon(want),"reading entries in another order"); checkDerived(c); }
    }
};
PBT_PROP(round_trip,30000,600000){ RoundTrip r(g); withClass(g.range(0,CLASSES-1),r); }
// ---- several objects in one file
struct Item { std::string node; std::function<void(Writer&)> write; std::function<void(Reader&)> read; std::function<void(const std::string&)> readFile; const char*cls; };
struct MakeItem { pbt::Case&g; std::vector<Item>&items; MakeItem(pbt::Case&g_,std::vector<Item>&i):g(g_),items(i){}
    template<class T> void run()
    {
        auto a=std::make_shared<T>(); generate(g,*a); auto dirt=std::make_shared<T>(); if(g.flip()) generate(g,*dirt); Item it; it.cls=Name<T>::n(); std::string node="s"+std::to_string(items.size()); if(g.flip()) node+=text(g,3); it.node=node; std::string want=canon(collect(*a));
        it.write=[=](Writer&w){ a->writeConfig(w,node); };
        it.read=[=](Reader&r){ T b(static_cast<const T&>(*dirt)); b.readConfig(r,node); PBT_CHECK(canon(collect(b))==want,"section '"<<node<<"' of "<<it.cls<<": read "<<canon(collect(b)).substr(0,300)<<" written "<<want.substr(0,300)); checkDerived(b); };
        it.readFile=[=](const std::string&f){ T b(static_cast<const T&>(*dirt)); b.template readConfig<Reader>(f,node); PBT_CHECK(canon(collect(b))==want,"section '"<<node<<"' of "<<it.cls<<" read from the file"); };
        items.push_back(it);
    }
};
PBT_PROP(sections,15000,300000)
{
    std::vector<Item> items; int n=g.range(1,6); MakeItem mk(g,items); for(int i=0;i<n;++i) withClass(g.range(0,CLASSES-1),mk); TmpFile f; { Writer w(f.name); for(auto&i:items) i.write(w); if(g.flip()) w.flush(); }
    std::string d; for(auto&i:items) d+=i.cls+std::string(" "); g.note("classes",d); g.nontrivial(n>1);
    Reader r(f.name); int reads=g.range(1,10); for(int k=0;k<reads;++k){ Item&i=items[g.range(0,n-1)]; if(g.flip()) i.read(r); else i.readFile(f.name); }
}
// ---- classes whose values are not accessible: compare what they write
template<class T> static void opaque(pbt::Case&g,T&a,T&b,const Obj&o,const char*cls)
{
    TmpFile f; msgpack::sbuffer buf; section(buf,"in",o); save(f.name,buf); g.note("class",cls).note("values",canon(o).substr(0,300)); g.tag(cls); g.nontrivial(true); V like; like.k='o'; like.m=o;
    if(g.flip()) a.template readConfig<Reader>(f.name,"in"); else { Reader r(f.name); a.readConfig(r,"in"); }
    a.template writeConfig<Writer>(f.name,std::string("out")); { auto s=sections(f.name); PBT_CHECK(s.size()==1&&s[0].first=="out","sections"); V got=decode(s[0].second->get().via.map.ptr[0].val,like); PBT_CHECK(canon(got)==canon(like),cls<<": wrote "<<canon(got)<<" after reading "<<canon(like)); }
    b.template readConfig<Reader>(f.name,"out"); { Writer w(f.name); b.writeConfig(w,std::string("again")); } auto s=sections(f.name); V got=decode(s[0].second->get().via.map.ptr[0].val,like); PBT_CHECK(canon(got)==canon(like),cls<<": second round trip");
}
static V D(double d){ V v; v.k='d'; v.d=d; return v; }
static V S(const std::string&s){ V v; v.k='s'; v.s=s; return v; }
static V B(bool b){ V v; v.k='b'; v.i=b; return v; }
#define E(n,v) o.push_back(std::make_pair(std::string(n),v))
PBT_PROP(opaque_objects,20000,400000)
{
    Obj o;
    switch(g.range(0,10))
    {
        case 0: { humoto::walking::RobotFootParameters a,b; double q[6]; const char*n[]={"max_step_len","min_feet_dist","max_feet_dist","feet_dist_default","foot_length","foot_width"}; for(int i=0;i<6;++i){ q[i]=g.real(-2,2); E(n[i],D(q[i])); } opaque(g,a,b,o,"RobotFootParameters");
            etools::Matrix2 M; M<<-q[4]/2,q[4]/2,-q[5]/2,q[5]/2; pbt::checkMat(b.getSSCoPBounds(),M,"CoP bounds after reading"); M<<-q[4]/2,q[4]/2,-(q[5]+q[3])/2,(q[5]+q[3])/2; pbt::checkMat(b.getADSCoPBounds(),M,"CoP bounds after reading"); M<<-q[0],q[0],q[1],q[2]; pbt::checkMat(b.getFootBounds(humoto::LeftOrRight::LEFT,humoto::walking::FootBoundsType::WITH_RESPECT_TO_SS),M,"foot bounds after reading"); break; }
        case 1: { humoto::TaskZeroVariables a,b(3,"other"); double q=value(g); E("gain",D(q)); E("variables_id",S(text(g))); opaque(g,a,b,o,"TaskZeroVariables"); PBT_CHECK(num(a.getGain())==num(q)&&num(b.getGain())==num(q),"gain"); break; }
        case 2: { humoto::IndexVector z; humoto::TaskZeroSelectedVariables a(z),b(z); V i; i.k='n'; for(int k=g.range(0,5);k>0;--k) i.a.push_back(g.range(0,9)); E("gain",D(value(g))); E("variables_indices",i); opaque(g,a,b,o,"TaskZeroSelectedVariables"); break; }
        case 3: { humoto::wpg04::TaskFootstepBounds a,b; E("gain",D(value(g))); E("fix_footsteps",B(g.flip())); { Obj p; for(auto&x:o) if(x.first!="gain") p.push_back(x); o=p; } opaque(g,a,b,o,"TaskFootstepBounds"); break; }
        case 4: { humoto::wpg04::TaskCoMVelocity a,b; E("gain",D(value(g))); opaque(g,a,b,o,"TaskCoMVelocity"); break; }
        case 5: { humoto::wpg04::TaskCoPVelocity a,b; E("gain",D(value(g))); opaque(g,a,b,o,"TaskCoPVelocity"); break; }
        case 6: { humoto::wpg04::TaskTerminalConstraint a,b; E("gain",D(value(g))); opaque(g,a,b,o,"TaskTerminalConstraint"); break; }
        case 7: { humoto::wpg04::TaskCoPPosition a,b; E("gain",D(value(g))); E("variables_id",S(text(g))); opaque(g,a,b,o,"TaskCoPPosition"); break; }
        case 8: { humoto::pepper_mpc::TaskCoPCentering a,b; E("gain",D(value(g))); opaque(g,a,b,o,"TaskCoPCentering"); break; }
        case 9: { humoto::pepper_mpc::TaskBaseVelocityReference a,b; E("gain",D(value(g))); opaque(g,a,b,o,"TaskBaseVelocityReference"); break; }
        default: { humoto::pepper_mpc::TaskBodyPositionReference a,b; E("gain",D(value(g))); opaque(g,a,b,o,"TaskBodyPositionReference"); break; }
    }
}
PBT_MAIN
