// PBT-rule: at least one object with non-default values was written and read back, or the file lacks an entry, contains a wrong one or is corrupted
// PBT-assume: finite numbers, compared with relative precision 1e-14 (the bridge writes 15 digits) | texts of printable characters | the installed YAML library is presented to the bridge through the interface of the version that it uses | vectors and matrices have at least one element in nested objects of no fixed size
// PBT-flags: -I{V}/lib/stubs/yaml03 -I{R}/bridges/config_yaml/interface -I{V}/lib/stubs -lyaml-cpp -DPBT_REPO="{R}"
#include "humoto/config_yaml.h"
#include "config_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
static const bool TWICE=true;
using namespace cf; typedef humoto::config::yaml::Reader YR; typedef humoto::config::yaml::Writer YW;
static bool near(double a,double b){ return a==b||(a!=a&&b!=b)||std::fabs(a-b)<=2e-14*std::fabs(b); }
static bool same(const V&a,const V&b,std::string&why);
static bool same(const Obj&a,const Obj&b,std::string&why){ for(auto&x:b){ const V*f=0; for(auto&y:a) if(y.first==x.first) f=&y.second; if(!f){ why=x.first+" is missing"; return false; } if(!same(*f,x.second,why)){ why=x.first+": "+why; return false; } } if(a.size()!=b.size()){ why="wrong number of entries"; return false; } return true; }
static bool same(const V&a,const V&b,std::string&why)
{
    if(b.k=='o') return same(a.m,b.m,why); bool ok=a.k==b.k; if(ok) switch(b.k){ case 'd': ok=near(a.d,b.d); break; case 'v': case 'm': ok=a.a.size()==b.a.size()&&(b.k=='v'||(a.r==b.r&&a.c==b.c)); for(size_t i=0;ok&&i<b.a.size();++i) ok=near(a.a[i],b.a[i]); break; default: ok=canon(a)==canon(b); }
    if(!ok) why=canon(a).substr(0,300)+" instead of "+canon(b).substr(0,300); return ok;
}
static bool same(const Obj&a,const Obj&b){ std::string w; return same(a,b,w); }
#define SAME(a,b,what) do { std::string w_; bool ok_=same(a,b,w_); PBT_CHECK(ok_,what<<": "<<w_); } while(0)
// ---- values: finite numbers, printable texts
static double num_(pbt::Case&g){ switch(g.range(0,5)){ case 0: return 0; case 1: return g.range(-5,5); case 2: return g.real(-1,1)*std::pow(10.,g.range(-12,12)); default: return g.real(-100,100); } }
static std::string text_(pbt::Case&g){ static const char*odd[]={"","true","no","~","null","1","-1.5e3",":","- a","# x","{a: b}","[1]","'","\"","a: b"," x ","&a","*a","!t","%","|",">","?"}; if(g.chance(1,4)) return odd[g.range(0,22)]; std::string s; for(int n=g.range(0,8);n>0;--n) s+=(char)(g.chance(1,4)?g.range(32,126):g.range('a','z')); return s; }
struct YFill: Fill { YFill(pbt::Case&g_):Fill(g_,false){}
    using Fill::operator(); void operator()(const char*,double&x){ x=num_(g); } void operator()(const char*,std::string&x){ x=text_(g); }
    template<class T> void sub(const char*,T&t){ fields(*this,t); }
};
template<class T> static void gen(pbt::Case&g,T&t){ YFill f(g); fields(f,t); } static void gen(pbt::Case&g,humoto::wpg04::MPCParameters&t){ generate(g,t); } static void gen(pbt::Case&g,humoto::pepper_mpc::MPCParameters&t){ generate(g,t); }
template<class T> struct TooBig { static bool is(const Obj&o){ for(auto&x:o) if(x.second.a.size()>1000||TooBig<int>::is(x.second.m)) return true; return false; } };
// ---- independent reading and writing of the files
static V decode_(const real_yaml::Node&n,const V&like)
{
    V v; v.k=like.k;
    switch(like.k){ case 'd': v.d=n.as<double>(); break; case 'i': v.i=n.as<int64_t>(); break; case 'u': v.i=(int64_t)n.as<uint64_t>(); break; case 'b': v.i=n.as<bool>(); break; case 's': v.s=n.as<std::string>(); break; case 'v': v.a=n.as<std::vector<double> >(); break; case 't': v.ss=n.as<std::vector<std::vector<std::string> > >(); break; case 'n': for(int64_t x:n.as<std::vector<int64_t> >()) v.a.push_back(x); break;
        case 'm': v.r=n["rows"].as<int>(); v.c=n["cols"].as<int>(); v.a=n["data"].as<std::vector<double> >(); PBT_CHECK(n.size()==3,"matrix entries"); break;
        case 'o': PBT_CHECK(n.IsMap()||like.m.empty(),"not a map"); for(auto e:n){ std::string name=e.first.Scalar(); const V*l=0; for(auto&x:like.m) if(x.first==name) l=&x.second; PBT_CHECK(l,"unexpected entry '"<<name<<"'"); v.m.push_back(std::make_pair(name,decode_(e.second,*l))); } break; }
    return v;
}
static void put_(real_yaml::Emitter&e,const V&v)
{
    using namespace real_yaml; switch(v.k){ case 'd': e<<v.d; break; case 'i': e<<(long)v.i; break; case 'u': e<<(unsigned long)v.i; break; case 'b': e<<(v.i!=0); break; case 's': e<<v.s; break; case 'v': e<<BeginSeq; for(double x:v.a) e<<x; e<<EndSeq; break; case 't': e<<BeginSeq; for(auto&l:v.ss){ e<<BeginSeq; for(auto&x:l) e<<x; e<<EndSeq; } e<<EndSeq; break; case 'n': e<<BeginSeq; for(double x:v.a) e<<(long)x; e<<EndSeq; break;
        case 'm': e<<BeginMap<<Key<<"data"<<Value<<BeginSeq; for(double x:v.a) e<<x; e<<EndSeq<<Key<<"rows"<<Value<<v.r<<Key<<"cols"<<Value<<v.c<<EndMap; break; case 'o': e<<BeginMap; for(auto&x:v.m){ e<<Key<<x.first<<Value; put_(e,x.second); } e<<EndMap; break; case 'a': e<<BeginSeq; for(auto&x:v.m) put_(e,x.second); e<<EndSeq; break; default: e<<Null; }
}
static std::string dump(pbt::Case&g,const std::vector<std::pair<std::string,Obj> >&ss){ V v; v.k='o'; for(auto&s:ss){ V o; o.k='o'; o.m=s.second; v.m.push_back(std::make_pair(s.first,o)); } real_yaml::Emitter e; e.SetDoublePrecision(17); if(g.flip()) e.SetMapFormat(real_yaml::Flow); if(g.flip()) e.SetSeqFormat(real_yaml::Flow); put_(e,v); return e.c_str(); }
// ---- round trip
struct RoundTrip { pbt::Case&g; explicit RoundTrip(pbt::Case&g_):g(g_){}
    template<class T> void run()
    {
        T a; gen(g,a); T b; if(g.flip()) gen(g,b); Obj want=collect(a); if(TooBig<T>::is(want)) g.discard(); g.note("class",Name<T>::n()).note("values",canon(want).substr(0,300)); g.nontrivial(!same(want,collect(T()))); g.tag(Name<T>::n());
        TmpFile f; std::string node=text_(g); int how=g.range(0,4); V like; like.k='o'; like.m=want;
        switch(how)
        {
            case 0: a.template writeConfig<YW>(f.name); b.template readConfig<YR>(f.name); break;
            case 1: a.template writeConfig<YW>(f.name,node); b.template readConfig<YR>(f.name,node,g.flip()); break;
            case 2: { YW w(f.name); a.writeConfig(w); } { YR r(f.name); b.readConfig(r); } break;
            case 3: { YW w(f.name); a.writeConfig(w,node); if(g.flip()&&TWICE) w.flush(); } { YR r(f.name); b.readConfig(r,node); } break;
            default: { { T junk; gen(g,junk); junk.template writeConfig<YW>(f.name); } a.template writeConfig<YW>(f.name); b.template readConfig<YR>(f.name,g.flip()); } break;
        }
        SAME(collect(b),want,Name<T>::n()<<" (way "<<how<<")"); checkDerived(b); PBT_CHECK(canon(collect(a))==canon(want),"writing changed the object");
        real_yaml::Node root=real_yaml::LoadFile(f.name); PBT_CHECK(root.IsMap()&&root.size()==1,"number of sections"); V got=decode_(root.begin()->second,like); SAME(got.m,want,"file, "<<Name<T>::n()); if(how==1||how==3) PBT_CHECK(root.begin()->first.Scalar()==node,"name of the section");
        if(g.flip()){ Obj o=want; for(size_t i=o.size();i>1;--i) std::swap(o[i-1],o[g.range(0,(int)i-1)]); std::string d=dump(g,{{"x",o}}); save(f.name,d.data(),d.size()); T c; gen(g,c); c.template readConfig<YR>(f.name,"x"); SAME(collect(c),want,"reading entries in another order"); }
    }
};
PBT_PROP(round_trip,12000,240000){ RoundTrip r(g); withClass(g.range(0,CLASSES-1),r); }
// ---- several objects in one file, in any order, with both bridges
struct Item { std::string node; std::function<void(YW&)> write; std::function<void(YR&)> read; std::function<void(const std::string&)> readFile,viaMsgpack; const char*cls; };
struct MakeItem { pbt::Case&g; std::vector<Item>&items; MakeItem(pbt::Case&g_,std::vector<Item>&i):g(g_),items(i){}
    template<class T> void run()
    {
        auto a=std::make_shared<T>(); gen(g,*a); if(TooBig<T>::is(collect(*a))) g.discard(); auto dirt=std::make_shared<T>(); if(g.flip()) gen(g,*dirt); Item it; it.cls=Name<T>::n(); std::string node="s"+std::to_string(items.size()); if(g.flip()) node+=text_(g); it.node=node; Obj want=collect(*a); const char*cls=it.cls;
        it.write=[=](YW&w){ a->writeConfig(w,node); };
        it.read=[=](YR&r){ T b(static_cast<const T&>(*dirt)); b.readConfig(r,node); SAME(collect(b),want,"section '"<<node<<"' of "<<cls); checkDerived(b); };
        it.readFile=[=](const std::string&f){ T b(static_cast<const T&>(*dirt)); b.template readConfig<YR>(f,node); SAME(collect(b),want,"section '"<<node<<"' of "<<cls<<" read from the file"); };
        it.viaMsgpack=[=](const std::string&f){ T b; b.template readConfig<YR>(f,node); TmpFile m("m"); b.template writeConfig<Writer>(m.name,node); T c(static_cast<const T&>(*dirt)); c.template readConfig<Reader>(m.name,node); SAME(collect(c),want,"section '"<<node<<"' of "<<cls<<" through the other bridge"); };
        items.push_back(it);
    }
};
PBT_PROP(sections,6000,120000)
{
    std::vector<Item> items; int n=g.range(1,6); MakeItem mk(g,items); for(int i=0;i<n;++i) withClass(g.range(0,CLASSES-1),mk); TmpFile f; { YW w(f.name); for(auto&i:items) i.write(w); if(g.flip()&&TWICE) w.flush(); }
    std::string d; for(auto&i:items) d+=i.cls+std::string(" "); g.note("classes",d); g.nontrivial(n>1); YR r(f.name); int reads=g.range(1,8); for(int k=0;k<reads;++k){ Item&i=items[g.range(0,n-1)]; switch(g.range(0,3)){ case 0: i.readFile(f.name); break; case 1: i.viaMsgpack(f.name); break; default: i.read(r); } }
}
// ---- absent, wrong
static V mk(char k){ V v; v.k=k; return v; }
static V S(const char*s){ V v=mk('s'); v.s=s; return v; }
static V arr(size_t n){ V v=mk('v'); v.a.assign(n,1.5); return v; }
static V D(double d){ V v=mk('d'); v.d=d; return v; }
static V M(const V&rows,const V&cols,const V&data){ V v=mk('o'); v.m.push_back(std::make_pair(std::string("rows"),rows)); v.m.push_back(std::make_pair(std::string("cols"),cols)); v.m.push_back(std::make_pair(std::string("data"),data)); return v; }
static V I(int i){ V v=mk('i'); v.i=i; return v; }
static V map1(){ V v=mk('o'); v.m.push_back(std::make_pair(std::string("a"),D(1))); return v; }
static V wrong(pbt::Case&g,const V&v)
{
    switch(v.k)
    {
        case 'd': case 'u': case 'i': case 'b': return g.pick(std::vector<V>{S("abc"),arr(1),arr(2),map1(),S("")});
        case 's': return g.pick(std::vector<V>{arr(1),map1()});
        case 'v': { std::vector<V> o={S("x"),map1(),D(1)}; V l=mk('a'); l.m.push_back(std::make_pair(std::string(),S("x"))); for(size_t i=1;i<v.a.size();++i) l.m.push_back(std::make_pair(std::string(),D(1))); o.push_back(l); if(v.fixed){ o.push_back(arr(v.a.size()+1)); o.push_back(arr(v.a.size()-1)); o.push_back(arr(0)); } return g.pick(o); }
        case 't': return g.pick(std::vector<V>{S("x"),map1(),arr(2)});
        case 'n': return g.pick(std::vector<V>{S("x"),map1()});
        case 'm': { size_t n=v.r*v.c; std::vector<V> o={D(1),arr(n),map1(),M(I(v.r),I(v.c),arr(n+1)),M(I(v.r+1),I(v.c+1),arr(n)),M(I(-v.r),I(-v.c-1),arr(v.r*(v.c+1))),M(S("x"),I(v.c),arr(n)),M(I(v.r),I(v.c),S("data"))}; V p=M(I(v.r),I(v.c),arr(n)); p.m.pop_back(); o.push_back(p); if(v.fixed){ if(v.r!=v.c) o.push_back(M(I(v.c),I(v.r),arr(n))); o.push_back(M(I(v.r+1),I(v.c),arr(n+v.c))); o.push_back(M(I(0),I(0),arr(0))); } return g.pick(o); }
    }
    return map1();
}
struct Partial { pbt::Case&g; Partial(pbt::Case&g_):g(g_){}
    template<class T> void run()
    {   // top-level entries of one object
        T a; gen(g,a); if(TooBig<T>::is(collect(a))) g.discard(); T dirt; bool isdirty=g.flip()&&!std::is_same<T,humoto::Solution>::value; if(isdirty) gen(g,dirt); Obj want=collect(a),exp=want; const Obj def=collect(T()); Obj file; bool missing=false,bad=false; std::string what; bool there=!g.chance(1,8); int rate=g.range(0,3);
        for(size_t i=0;i<want.size();++i){ int k=g.chance(rate,8)?g.range(1,2):0; if(k==0) file.push_back(want[i]); else if(k==1){ missing=true; exp[i].second=def[i].second; what+=" -"+want[i].first; } else if(want[i].second.k=='o'){ missing=true; file.push_back(std::make_pair(want[i].first,g.flip()?I(4):arr(2))); exp[i].second=def[i].second; what+=" !"+want[i].first; } else { bad=true; file.push_back(std::make_pair(want[i].first,wrong(g,want[i].second))); what+=" ?"+want[i].first; } }
        if(g.chance(1,6)) file.push_back(std::make_pair(std::string("unrelated"),map1())); std::vector<std::pair<std::string,Obj> > ss; if(g.flip()) ss.push_back(std::make_pair(std::string("before"),Obj(1,std::make_pair(std::string("q"),D(1))))); if(there) ss.push_back(std::make_pair(std::string("n"),file)); if(g.flip()) ss.push_back(std::make_pair(std::string("z"),want)); else ss.push_back(std::make_pair(std::string("y"),Obj())); bool haveZ=ss.back().first=="z";
        if(!there){ missing=true; bad=false; exp=def; } TmpFile f; std::string d=dump(g,ss); save(f.name,d.data(),d.size()); g.note("class",Name<T>::n()).note("what",there?what:" absent"); g.nontrivial(missing||bad); g.tag(bad?"bad":missing?"missing":"intact"); YR r(f.name);
        bool noSub=true; for(auto&x:want) if(x.second.k=='o') noSub=false;
        for(int k=g.range(1,3);k>0;--k)
        {
            T t; if(isdirty) t=static_cast<const T&>(dirt); bool strict=g.flip(); bool threw=pbt::throwsCleanly([&]{ if(g.flip()) t.readConfig(r,"n",strict); else t.template readConfig<YR>(f.name,"n",strict); }); if(!valid(t)) continue;
            bool empty=there&&file.empty(); /* written as a map without entries */ bool must=bad||(strict&&missing); PBT_CHECK(threw==must,(strict?"strict":"relaxed")<<" read of "<<Name<T>::n()<<what<<(threw?" failed":" did not fail")); (void)empty; if(!threw&&noSub) SAME(collect(t),exp,"relaxed read of "<<Name<T>::n()<<what);
            if(haveZ){ T u; u.readConfig(r,"z",true); SAME(collect(u),want,"another section after a "<<(threw?"failed":"successful")<<" read"); }
        }
    }
    template<class T> bool valid(const T&){ return !std::is_same<T,humoto::wpg04::MPCParameters>::value; }
};
PBT_PROP(partial,8000,160000){ Partial p(g); withClass(g.range(0,CLASSES-1),p); }
// ---- damaged files: an error or values
struct Byte { pbt::Case&g; Byte(pbt::Case&g_):g(g_){}
    template<class T> void run()
    {
        T a; gen(g,a); if(TooBig<T>::is(collect(a))) g.discard(); TmpFile f; { YW w(f.name); for(int i=g.range(0,2);i>=0;--i) a.writeConfig(w,std::string(1,'a'+i)); } std::string b=slurp(f.name); static const char odd[]="{}[]:,#&*!|>'\"%@`-\n\t ?~0x.eE+9";
        for(int e=g.range(1,4);e>0;--e) switch(g.range(0,3)){ case 0: if(!b.empty()) b.resize(g.range(0,(int)b.size()-1)); break; case 1: if(!b.empty()) b[g.range(0,(int)b.size()-1)]=odd[g.range(0,(int)sizeof(odd)-2)]; break; case 2: b.insert(g.range(0,(int)b.size()),1,odd[g.range(0,(int)sizeof(odd)-2)]); break; default: if(!b.empty()) b.erase(g.range(0,(int)b.size()-1),g.range(1,9)); }
        save(f.name,b.data(),b.size()); g.note("class",Name<T>::n()).note("file",b.substr(0,200)); g.nontrivial(true); T t; std::unique_ptr<YR> r; bool opened=!pbt::throwsCleanly([&]{ r.reset(new YR(f.name)); }); g.tag(opened?"parsed":"rejected"); if(!opened) return;
        for(int i=g.range(1,4);i>0;--i){ bool strict=g.flip(); bool threw=pbt::throwsCleanly([&]{ t.readConfig(*r,std::string(1,'a'+g.range(0,2)),strict); }); g.tag(threw?"section rejected":"section read"); }
    }
};
PBT_PROP(damaged,6000,120000){ Byte b(g); withClass(g.range(0,CLASSES-1),b); }
PBT_PROP(files,3000,30000)
{
    TmpFile f; humoto::pepper_mpc::RobotParameters p; gen(g,p); g.nontrivial(true); int k=g.range(0,4); g.note("kind",k); Obj def=collect(humoto::pepper_mpc::RobotParameters());
    switch(k)
    {
        case 0: PBT_CHECK(pbt::throwsCleanly([&]{ YR r(f.name+".none"); })&&pbt::throwsCleanly([&]{ p.readConfig<YR>(f.name+".none",g.flip()); }),"a missing file is not reported"); break;
        case 1: PBT_CHECK(pbt::throwsCleanly([&]{ p.writeConfig<YW>(f.name+".none/file"); }),"a file that cannot be written is not reported"); break;
        case 2: { save(f.name,"",0); bool strict=g.flip(); bool threw=pbt::throwsCleanly([&]{ p.readConfig<YR>(f.name,strict); }); PBT_CHECK(threw==strict,"empty file"); if(!threw) SAME(collect(p),def,"empty file"); break; }
        case 3: { YR e; bool strict=g.flip(); bool threw=pbt::throwsCleanly([&]{ p.readConfig(e,strict); }); PBT_CHECK(threw==strict,"reader without a file"); if(!threw) SAME(collect(p),def,"reader without a file"); break; }
        default: { static const char*odd[]={"abc","[1, 2]","5","~","a: b"}; std::string s=odd[g.range(0,4)]; save(f.name,s.data(),s.size()); bool strict=g.flip(); bool threw=pbt::throwsCleanly([&]{ p.readConfig<YR>(f.name,strict); }); PBT_CHECK(threw==strict,"file without sections"); if(!threw) SAME(collect(p),def,"file without sections"); }
    }
}
// ---- lists of texts: descriptions of hierarchies
class Lists: public humoto::config::RelaxedConfigurableBase
{
    #define HUMOTO_CONFIG_SECTION_ID "Lists"
    #define HUMOTO_CONFIG_CONSTRUCTOR Lists
    #define HUMOTO_CONFIG_ENTRIES HUMOTO_CONFIG_COMPOUND(nested) HUMOTO_CONFIG_COMPOUND(flat) HUMOTO_CONFIG_COMPOUND(numbers)
    #include HUMOTO_CONFIG_DEFINE_ACCESSORS
    public: std::vector<std::vector<std::string> > nested; std::vector<std::string> flat; std::vector<double> numbers; Lists(){ setDefaults(); } void setDefaults(){ nested.assign(1,std::vector<std::string>(2,"d")); flat.clear(); numbers.assign(2,1); }
};
PBT_PROP(lists,8000,120000)
{
    Lists a,b; auto fill=[&](Lists&l){ l.nested.assign(g.range(0,4),std::vector<std::string>()); for(auto&v:l.nested) for(int k=g.range(0,4);k>0;--k) v.push_back(text_(g)); l.flat.clear(); for(int k=g.range(0,4);k>0;--k) l.flat.push_back(text_(g)); l.numbers.clear(); for(int k=g.range(0,4);k>0;--k) l.numbers.push_back(num_(g)); };
    fill(a); if(g.flip()) fill(b); g.nontrivial(a.nested.size()>1); TmpFile f; { YW w(f.name); if(g.flip()) b.writeConfig(w,"first"); a.writeConfig(w,"x"); } { YR r(f.name); b.readConfig(r,"x",g.flip()); } auto show=[](const Lists&l){ std::string s; for(auto&v:l.nested){ s+="<"; for(auto&x:v) s+=quote(x)+","; s+=">"; } s+=" | "; for(auto&x:l.flat) s+=quote(x)+","; return s; };
    g.note("lists",show(a)); PBT_CHECK(b.nested==a.nested&&b.flat==a.flat,"read "<<show(b)<<" written "<<show(a)); PBT_CHECK(b.numbers.size()==a.numbers.size(),"numbers"); for(size_t i=0;i<a.numbers.size();++i) PBT_CHECK(near(b.numbers[i],a.numbers[i]),"number "<<i);
}
// ---- the configuration files that come with the library
struct Shipped { bool relaxed=false; std::string file,section; std::function<void(const std::string&,const std::string&)> strict; };
// reads strictly and writes the object to another file
template<class T> Shipped ship(const std::string&file,const std::string&section="")
{
    Shipped s; s.file=std::string(PBT_REPO)+"/"+file; s.section=section; s.strict=[section](const std::string&from,const std::string&to){ T t; YR r(from); if(section.empty()) t.readConfig(r,true); else t.readConfig(r,section,true); YW w(to); if(section.empty()) t.writeConfig(w); else t.writeConfig(w,section); }; return s;
}
template<class T> Shipped shipAs(const std::string&file,const std::string&id){ Shipped s; s.file=std::string(PBT_REPO)+"/"+file; s.section=id; s.strict=[](const std::string&from,const std::string&to){ T t; YR r(from); t.readConfig(r,true); YW w(to); t.writeConfig(w); }; return s; }
static const std::vector<Shipped>& shipped()
{
    static std::vector<Shipped> v; if(v.size()) return v; namespace h=humoto; namespace k=humoto::pepper_ik; typedef k::ModelFeatures MF; enum { PL=MF::FIXED_WHEELS|MF::ROOT_PLANAR, TI=MF::FIXED_WHEELS|MF::ROOT_TIBIA, TO=MF::FIXED_WHEELS|MF::ROOT_TORSO };
    v.push_back(shipAs<h::walking::StanceFSMParameters>("core/config/stance_fsm_parameters.yaml","StanceFSMParameters"));
    { Shipped q; q.relaxed=true; q.file=std::string(PBT_REPO)+"/core/config/qpoases.yaml"; q.section="SolverParameters"; q.strict=[](const std::string&from,const std::string&to){ h::qpoases::SolverParameters t; YR r(from); t.readConfig(r,false); YW w(to); t.writeConfig(w); }; v.push_back(q); } // lacks the parameters that are common to all solvers
    for(auto x:{"stand_lean_forward","stand_still","walk_forward_7_steps","walk_in_place_7_steps"}) v.push_back(shipAs<h::wpg04::WalkParameters>(std::string("modules/wpg04/config/walk_parameters__")+x+".yaml","WalkParameters"));
    for(auto x:{"2","4"}){ v.push_back(shipAs<h::wpg04::ModelState>(std::string("modules/wpg04/config/initial_state_hrp")+x+".yaml","ModelState")); v.push_back(shipAs<h::walking::RobotFootParameters>(std::string("modules/wpg04/config/robot_hrp")+x+".yaml","RobotFootParameters")); }
    for(auto x:{"circle","circle_fast","line","stand"}) v.push_back(shipAs<h::pepper_mpc::MotionParameters>(std::string("modules/pepper_mpc/config/motion_parameters_")+x+".yaml","MotionParameters"));
    for(auto x:{"","_subsampling10"}) v.push_back(shipAs<h::pepper_mpc::MPCParameters>(std::string("modules/pepper_mpc/config/mpc_parameters")+x+".yaml","MPCParameters")); v.push_back(shipAs<h::pepper_mpc::RobotParameters>("modules/pepper_mpc/config/robot_parameters.yaml","RobotParameters"));
    for(auto x:{"","_default"}){ v.push_back(shipAs<h::pepper_mpc::ModelState>(std::string("modules/pepper_mpc/config/initial_state_pepper")+x+".yaml","ModelState")); v.push_back(shipAs<k::MotionParameters>(std::string("modules/pepper_ik/config/motion_parameters")+x+".yaml","MotionParameters")); }
    v.push_back(shipAs<k::WBCParameters>("modules/pepper_ik/config/wbc_parameters.yaml","WBCParameters")); for(auto x:{"initial_state_pepper_ik_planar","initial_state_pepper_ik_planar_default","rest_state_pepper_ik_planar"}) v.push_back(shipAs<k::GeneralizedCoordinates<PL> >(std::string("modules/pepper_ik/config/")+x+".yaml","GeneralizedCoordinates"));
    v.push_back(shipAs<k::GeneralizedCoordinates<TI> >("modules/pepper_ik/config/initial_state_pepper_ik_tibia_default.yaml","GeneralizedCoordinates")); v.push_back(shipAs<k::GeneralizedCoordinates<TO> >("modules/pepper_ik/config/initial_state_pepper_ik_torso_default.yaml","GeneralizedCoordinates"));
    for(int i=0;i<4;++i) v.push_back(ship<h::wpg04::ConfigurableOptimizationProblem>("modules/wpg04/config/hierarchies.yaml","Hierarchy0"+std::to_string(i))); for(int i=0;i<2;++i) v.push_back(ship<h::pepper_mpc::ConfigurableOptimizationProblem>("modules/pepper_mpc/config/hierarchies.yaml","Hierarchy0"+std::to_string(i)));
    for(int i=0;i<5;++i) v.push_back(ship<k::ConfigurableOptimizationProblem<PL> >("modules/pepper_ik/config/hierarchies_planar.yaml","Hierarchy0"+std::to_string(i))); v.push_back(ship<k::ConfigurableOptimizationProblem<TO> >("modules/pepper_ik/config/hierarchies_torso.yaml","Hierarchy00"));
    return v;
}
static void leaves(const real_yaml::Node&n,const std::string&p,std::vector<std::string>&o){ if(n.IsMap()&&n.size()) for(auto e:n) leaves(e.second,p+"/"+e.first.Scalar(),o); else o.push_back(p); }
static void restyle(pbt::Case&g,const real_yaml::Node&n,const std::string&p,const std::string&drop,real_yaml::Emitter&e)
{
    if(n.IsMap()){ std::vector<std::pair<std::string,real_yaml::Node> > v; for(auto x:n) v.push_back(std::make_pair(x.first.Scalar(),x.second)); std::vector<size_t> o(v.size()); for(size_t i=0;i<o.size();++i) o[i]=i; for(size_t i=o.size();i>1;--i) std::swap(o[i-1],o[g.range(0,i-1)]); if(p.size()&&g.chance(1,4)) e<<real_yaml::Flow; e<<real_yaml::BeginMap; for(size_t i:o) if(p+"/"+v[i].first!=drop){ auto&x=v[i]; e<<real_yaml::Key<<x.first<<real_yaml::Value; restyle(g,x.second,p+"/"+x.first,drop,e); } e<<real_yaml::EndMap; }
    else if(n.IsSequence()){ if(g.flip()) e<<real_yaml::Flow; e<<real_yaml::BeginSeq; for(auto x:n) restyle(g,x,p,drop,e); e<<real_yaml::EndSeq; }
    else if(n.IsScalar()){ if(n.Tag()=="!") e<<real_yaml::DoubleQuoted; e<<n.Scalar(); }
    else e<<real_yaml::Null;
}
// every entry of a is in b, with the same value
static std::string within(const real_yaml::Node&a,const real_yaml::Node&b,const std::string&p)
{
    if(a.IsMap()){ if(!b.IsMap()) return a.size()?p+": not a map":""; for(auto e:a){ std::string k=e.first.Scalar(); if(!b[k]) return p+"/"+k+": missing"; std::string w=within(e.second,b[k],p+"/"+k); if(w!="") return w; } return ""; }
    if(a.IsSequence()){ if(!b.IsSequence()||a.size()!=b.size()) return p+": length"; for(size_t i=0;i<a.size();++i){ std::string w=within(a[i],b[i],p+"/"+std::to_string(i)); if(w!="") return w; } return ""; }
    if(a.IsScalar()&&b.IsScalar()){ std::string x=a.Scalar(),y=b.Scalar(); if(x==y) return ""; char*e; double u=strtod(x.c_str(),&e); if(!*e&&x!=""){ double v=strtod(y.c_str(),&e); if(!*e&&y!=""&&std::fabs(u-v)<=1e-14*std::fabs(u)) return ""; } try{ if(a.as<bool>()==b.as<bool>()) return ""; } catch(const std::exception&){} return p+": '"+x+"' became '"+y+"'"; }
    return a.IsNull()&&b.IsNull()?"":p+": kind";
}
PBT_PROP(shipped_files,800,16000)
{
    const Shipped&s=shipped()[g.range(0,shipped().size()-1)]; g.note("file",s.file.substr(s.file.rfind('/')+1)).note("section",s.section); if(access(s.file.c_str(),R_OK)!=0) g.discard();
    real_yaml::Node all=real_yaml::LoadFile(s.file); PBT_CHECK(all[s.section],"the file has no section "<<s.section); std::vector<std::string> l; leaves(all[s.section],"/"+s.section,l); std::string drop=g.chance(1,3)&&!s.relaxed?g.pick(l):""; g.note("dropped",drop); g.nontrivial(true);
    TmpFile in,out("b"); std::string from=s.file; if(drop!=""||!g.chance(1,8)){ real_yaml::Emitter e; restyle(g,all,"",drop,e); save(in.name,e.c_str(),e.size()); from=in.name; }
    if(drop!="") PBT_CHECK(pbt::throwsCleanly([&]{ s.strict(from,out.name); }),"the missing entry is not reported");
    else { s.strict(from,out.name); real_yaml::Node o=real_yaml::LoadFile(out.name); PBT_CHECK(o[s.section],"section of the written file"); std::string w=within(all[s.section],o[s.section],""); PBT_CHECK(w=="",w); }
}
PBT_MAIN
