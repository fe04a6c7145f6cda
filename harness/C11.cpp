// PBT-rule: the file lacks an entry, contains an entry of wrong type or size, or is corrupted
// PBT-assume: configuration is stored with the msgpack bridge 
// PBT-quickkind: san
// PBT-scale: 3
// PBT-nosan: enum
// PBT-flags: -I{V}/lib/stubs
#include "config_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cf;
static V mk(char k){ V v; v.k=k; return v; }
static V I(int64_t i){ V v=mk('i'); v.i=i; return v; }
static V D(double d){ V v=mk('d'); v.d=d; return v; }
static V S(const char*s){ V v=mk('s'); v.s=s; return v; }
static V list(std::initializer_list<V> l){ V v=mk('a'); for(auto&x:l) v.m.push_back(std::make_pair(std::string(),x)); return v; }
static V M(V rows,V cols,V data){ V v=mk('o'); v.m.push_back(std::make_pair(std::string("rows"),rows)); v.m.push_back(std::make_pair(std::string("cols"),cols)); v.m.push_back(std::make_pair(std::string("data"),data)); return v; }
static V arr(size_t n){ V v=mk('v'); v.a.assign(n,1.5); return v; }
// something that is not a value of this kind
static V wrong(pbt::Case&g,const V&v)
{
    switch(v.k)
    {
        case 'd': return g.pick(std::vector<V>{S("1"),mk('b'),arr(1),mk('0'),mk('o')});
        case 'u': return g.pick(std::vector<V>{D(1.5),S("1"),I(-1),mk('0'),arr(1),mk('o')});
        case 'i': return g.pick(std::vector<V>{D(1.5),S("1"),mk('0'),arr(1),mk('o')});
        case 'b': return g.pick(std::vector<V>{I(1),S("true"),mk('0'),arr(1)});
        case 's': return g.pick(std::vector<V>{I(1),mk('0'),arr(1),mk('o')});
        case 'v': { std::vector<V> o={D(1),S("1"),mk('0'),mk('o')}; { V l=list({}); for(size_t i=0;i<std::max<size_t>(1,v.a.size());++i) l.m.push_back(std::make_pair(std::string(),i==0?S("x"):D(1))); o.push_back(l); } if(v.fixed){ o.push_back(arr(v.a.size()+1)); o.push_back(arr(v.a.size()-1)); o.push_back(arr(0)); o.push_back(arr(v.a.size()+300)); } return g.pick(o); }
        case 't': return g.pick(std::vector<V>{I(1),S("1"),mk('0'),list({S("x")}),list({list({S("x"),I(1)})}),arr(2)});
        case 'n': return g.pick(std::vector<V>{I(1),S("1"),mk('0'),list({S("x")}),list({I(1),D(1.5)})});
        case 'm': { size_t n=v.r*v.c; std::vector<V> o={D(1),arr(n),mk('o'),M(I(v.r),I(v.c),arr(n+1)),M(I(v.r+1),I(v.c+1),arr(n)),M(I(-v.r),I(-v.c-1),arr(v.r*(v.c+1))),M(S("2"),I(v.c),arr(n)),M(I(v.r),I(v.c),S("data")),M(I(int64_t(1)<<32),I(int64_t(1)<<32),arr(0)),M(I(std::numeric_limits<int64_t>::max()),I(3),arr(n))}; V p=M(I(v.r),I(v.c),arr(n)); p.m.pop_back(); o.push_back(p); p=M(I(v.r),I(v.c),arr(n)); p.m.erase(p.m.begin()); o.push_back(p);
            if(v.fixed){ if(v.r!=v.c) o.push_back(M(I(v.c),I(v.r),arr(n))); o.push_back(M(I(v.r+1),I(v.c),arr(n+v.c))); o.push_back(M(I(v.r-1),I(v.c),arr(n-v.c))); o.push_back(M(I(0),I(0),arr(0))); o.push_back(M(I(v.r),I(v.c+200),arr(v.r*(v.c+200)))); } return g.pick(o); }
    }
    return mk('0');
}
// mutated tree in, expectation out: value per leaf, alternatives for defaulted nested leaves
struct Mut { pbt::Case&g; bool missing,bad; std::string what; explicit Mut(pbt::Case&g_):g(g_),missing(false),bad(false){}
    Obj expect; // what a relaxed read gives (one of the acceptable variants)
    Obj apply(const Obj&a,const Obj&def,const Obj*alt,int rate,Obj&exp,std::vector<std::pair<V*,V> >*)
    {
        Obj out;
        for(size_t i=0;i<a.size();++i)
        {
            const V&v=a[i].second; V e=def[i].second; int what_=g.chance(rate,8)?g.range(1,3):0; std::string n=a[i].first;
            if(what_==0)
            {
                if(v.k=='o'){ V c=v; Obj sub; c.m=apply(v.m,v.def,&def[i].second.m,rate,sub,0); out.push_back(std::make_pair(n,c)); e=v; e.m=sub; }
                else { out.push_back(a[i]); e=v; }
            }
            else if(what_==1){ missing=true; what+=" -"+n; if(v.k=='o'){ e=v; e.m=v.def; } }
            else if(v.k=='o'){ missing=true; what+=" !"+n; out.push_back(std::make_pair(n,g.flip()?I(4):arr(2))); e=v; e.m=v.def; }
            else { bad=true; what+=" ?"+n; out.push_back(std::make_pair(n,wrong(g,v))); }
            exp.push_back(std::make_pair(n,e));
        }
        if(g.chance(1,6)) out.insert(out.begin()+g.range(0,(int)out.size()),std::make_pair(std::string("unrelated"),wrong(g,D(0))));
        return out;
    }
};
// acceptable: equal to the expectation, where nested leaves that are absent may also have the default of the enclosing object
static bool accept(const Obj&got,const Obj&exp,const Obj&file,bool sectionThere,const Obj&parentDef,const Obj&ownDef,std::string&why)
{
    for(size_t i=0;i<got.size();++i)
    {
        const V&g=got[i].second; const V*f=0; if(sectionThere) for(auto&x:file) if(x.first==got[i].first) f=&x.second;
        if(g.k=='o'){ bool there=f&&f->k=='o'; if(!accept(g.m,exp[i].second.m,there?f->m:Obj(),there,parentDef[i].second.m,g.def,why)) return false; continue; }
        if(f){ if(canon(g)!=canon(exp[i].second)){ why=got[i].first+" is "+canon(g)+" instead of "+canon(exp[i].second); return false; } }
        else if(canon(g)!=canon(parentDef[i].second)&&canon(g)!=canon(ownDef[i].second)){ why="missing "+got[i].first+" is "+canon(g)+" instead of the default "+canon(ownDef[i].second); return false; }
    }
    return true;
}
template<class T> static bool valid(const Obj&){ return true; }
template<> bool valid<humoto::wpg04::MPCParameters>(const Obj&o){ uint64_t s=o[1].second.i,u=o[2].second.i,t=o[3].second.i; return u>0&&s%u==0&&t%u==0; }
struct Item { std::string node; Obj file; bool there; std::function<void(Reader*,const std::string&,pbt::Case&)> read; };
struct Make { pbt::Case&g; std::vector<Item>&items; int rate; Make(pbt::Case&g_,std::vector<Item>&i,int r):g(g_),items(i),rate(r){}
    template<class T> void run()
    {
        T a; generate(g,a,false); if(g.chance(1,5)&&std::is_same<T,humoto::wpg04::MPCParameters>::value){ Fill f(g,false); fields(f,a); if(g.flip()) zero(a); }
        T dirt; bool isdirty=g.flip()&&!std::is_same<T,humoto::Solution>::value; /* a solution has no defaults */ if(isdirty) generate(g,dirt,false); Obj want=collect(a); const Obj def=collect(T()); Mut m(g); Item it; it.there=!g.chance(1,8); it.node="n"+std::to_string(items.size()); Obj exp; it.file=m.apply(want,def,0,rate,exp,0); if(!it.there) exp=def;
        bool missing=!it.there||m.missing,bad=it.there&&m.bad; g.note("section",it.node+":"+Name<T>::n()+(it.there?m.what:" (absent)")); g.nontrivial(missing||bad); g.tag(bad?"bad":missing?"missing":"intact"); Obj file=it.file; bool there=it.there; std::string node=it.node; auto pd=std::make_shared<T>(static_cast<const T&>(dirt));
        it.read=[=](Reader*r,const std::string&fn,pbt::Case&g)
        {
            T t; if(isdirty) t=static_cast<const T&>(*pd); bool strict=g.flip(); bool threw=pbt::throwsCleanly([&]{ if(r) t.readConfig(*r,node,strict); else t.template readConfig<Reader>(fn,node,strict); });
            bool must=bad||(strict&&missing)||(!bad&&there&&!valid<T>(exp)); PBT_CHECK(threw==must,(strict?"strict":"relaxed")<<" read of "<<Name<T>::n()<<m.what<<(threw?" failed":" did not fail")); if(threw) return;
            std::string why; bool ok=accept(collect(t),exp,file,there,def,def,why); PBT_CHECK(ok,"relaxed read of "<<Name<T>::n()<<m.what<<": "<<why); if(there) checkDerived(t);
        };
        items.push_back(it);
    }
    template<class T> void zero(T&){} void zero(humoto::wpg04::MPCParameters&t){ t.subsampling_time_ms_=0; }
};
PBT_PROP(partial,8000,200000)
{
    std::vector<Item> items; Make mkr(g,items,g.range(0,3)); int n=g.range(1,5); for(int i=0;i<n;++i) withClass(g.range(0,CLASSES-1),mkr);
    TmpFile f; msgpack::sbuffer buf; std::vector<int> order; for(int i=0;i<n;++i) if(items[i].there) order.push_back(i); for(size_t i=order.size();i>1;--i) std::swap(order[i-1],order[g.range(0,(int)i-1)]);
    Packer p(&buf); size_t k=0; while(k<order.size()){ if(g.chance(1,6)) p.pack_map(0); int c=g.flip()?1:g.range(1,(int)(order.size()-k)); p.pack_map(c); for(int j=0;j<c;++j){ p.pack(items[order[k]].node); V v=mk('o'); v.m=items[order[k]].file; put(p,v); ++k; } if(g.chance(1,8)) put(p,g.flip()?arr(2):I(3)); }
    if(g.chance(1,6)) p.pack_map(0); save(f.name,buf); Reader r(f.name); int reads=g.range(1,8); for(int i=0;i<reads;++i){ Item&it=items[g.range(0,n-1)]; it.read(g.chance(3,4)?&r:0,f.name,g); }
}
// ---- corrupted bytes: an error, or a readable section; never anything else
struct Byte { pbt::Case&g; std::string bytes; Byte(pbt::Case&g_):g(g_){}
    template<class T> void run()
    {
        T a; generate(g,a,false); TmpFile f; int n=g.range(0,3); { Writer w(f.name); for(int i=0;i<n;++i) a.writeConfig(w,std::string(1,'a'+i)); } std::string b=slurp(f.name); std::string what; if(b.size()>20000) g.discard();
        int edits=g.range(1,4); for(int e=0;e<edits;++e) switch(g.range(0,4))
        {
            case 0: if(!b.empty()){ b.resize(g.range(0,(int)b.size()-1)); what+=" cut"; } break;
            case 1: for(int i=g.range(1,3);i>0&&!b.empty();--i){ b[g.range(0,(int)b.size()-1)]=(char)g.range(0,255); what+=" set"; } break;
            case 2: { int at=g.range(0,(int)b.size()); std::string ins; for(int i=g.range(1,8);i>0;--i) ins+=(char)(g.flip()?0x80+g.range(0,127):g.range(0,255)); b.insert(at,ins); what+=" insert"; } break;
            case 3: if(!b.empty()){ int at=g.range(0,(int)b.size()-1); b.erase(at,g.range(1,9)); what+=" erase"; } break;
            default: { static const unsigned char big[][5]={{0xdd,0xff,0xff,0xff,0xff},{0xdf,0xff,0xff,0xff,0xff},{0xdb,0xff,0xff,0xff,0xff},{0xdd,0,0x10,0,0},{0xc6,0xff,0xff,0xff,0xff}}; int at=g.range(0,(int)b.size()); b.insert(at,std::string((const char*)big[g.range(0,4)],5)); what+=" huge"; } break;
        }
        save(f.name,b.data(),b.size()); g.note("class",Name<T>::n()).note("edits",what); g.nontrivial(true); T t; std::unique_ptr<Reader> r; bool opened=!pbt::throwsCleanly([&]{ r.reset(new Reader(f.name)); }); g.tag(opened?"parsed":"rejected");
        if(!opened) return; for(int i=g.range(1,4);i>0;--i)
        {
            bool strict=g.flip(); std::string node(1,'a'+g.range(0,2)); bool threw=pbt::throwsCleanly([&]{ t.readConfig(*r,node,strict); }); g.tag(threw?"section rejected":"section read"); if(threw||g.flip()||strangeEnum(collect(t))) continue; /* enumerations are not range checked */
            std::string c=canon(collect(t)); TmpFile f2("b"); t.template writeConfig<Writer>(f2.name,std::string("z")); T u; u.template readConfig<Reader>(f2.name,std::string("z")); PBT_CHECK(canon(collect(u))==c,"values accepted from a corrupted file do not survive a round trip");
        }
    }
};
PBT_PROP(corrupted,10000,300000){ Byte b(g); withClass(g.range(0,CLASSES-1),b); }
PBT_PROP(garbage,10000,300000)
{
    TmpFile f; std::string b; int n=g.range(0,40); for(int i=0;i<n;++i) b+=g.chance(1,3)?(char)g.range(0,255):(char)(g.flip()?0x80+g.range(0,3):0x90+g.range(0,3)); save(f.name,b.data(),b.size()); g.nontrivial(n>0); humoto::pepper_mpc::RobotParameters p; std::string d=canon(collect(p));
    bool strict=g.flip(); bool threw=pbt::throwsCleanly([&]{ p.readConfig<Reader>(f.name,"x",strict); }); if(strict) PBT_CHECK(threw,"strict read of garbage succeeded"); else if(!threw) PBT_CHECK(canon(collect(p))==d,"relaxed read of garbage changed the values");
    if(g.chance(1,20)){ PBT_CHECK(pbt::throwsCleanly([&]{ Reader r(f.name+".none"); }),"missing file"); PBT_CHECK(pbt::throwsCleanly([&]{ p.readConfig<Reader>(f.name+".none",strict); }),"missing file"); PBT_CHECK(pbt::throwsCleanly([&]{ p.writeConfig<Writer>(f.name+".none/file"); }),"unwritable file"); Reader e; PBT_CHECK(pbt::throwsCleanly([&]{ p.readConfig(e,true); }),"reader without a file"); PBT_CHECK(!pbt::throwsCleanly([&]{ p.readConfig(e,false); }),"reader without a file, relaxed"); }
}
// ---- defaults: the same wherever and however an object gets them
struct Def { pbt::Case&g; Def(pbt::Case&g_):g(g_){}
    template<class T> std::string at(int byte,bool relaxed)
    {
        std::vector<char> mem(sizeof(T)+64,(char)byte); void*p=mem.data(); size_t sp=mem.size(); std::align(32,sizeof(T),p,sp); T*t=new(p) T; std::string c;
        if(relaxed){ TmpFile f; save(f.name,"",0); t->template readConfig<Reader>(f.name,std::string("x"),false); } c=canon(collect(*t)); t->~T(); return c;
    }
    template<class T> void run()
    {
        if(std::is_same<T,humoto::Solution>::value) g.discard(); int a=g.range(0,255),b=g.range(0,255); g.note("class",Name<T>::n()); g.nontrivial(a!=b); std::string d=at<T>(a,false); PBT_CHECK(at<T>(b,false)==d,"a default constructed "<<Name<T>::n()<<" depends on what was in memory: "<<d);
        PBT_CHECK(at<T>(b,true)==d,"relaxed read of an empty file does not give the defaults of "<<Name<T>::n());
        T t; generate(g,t,false); bool empty=g.flip(); TmpFile f; msgpack::sbuffer buf; if(empty) section(buf,"x",Obj()); save(f.name,buf); t.template readConfig<Reader>(f.name,std::string("x"),false); PBT_CHECK(canon(collect(t))==d||empty,"relaxed read of "<<(empty?"an empty":"an absent")<<" section gives "<<canon(collect(t))<<" instead of the defaults "<<d);
        generate(g,t,false); reset(t,d,g);
    }
    template<class T> void reset(T&t,const std::string&d,pbt::Case&){ zeros(t,d); }
    void reset(humoto::pepper_mpc::MotionParameters&t,const std::string&d,pbt::Case&g){ if(g.flip()) t.setDefaults(); else t.setIdle(); PBT_CHECK(canon(collect(t))==d,"idle motion parameters are not the defaults"); PBT_CHECK(t.base_velocity_.isZero(0)&&t.base_position_.isZero(0)&&t.base_angular_velocity_==0,"idle motion moves"); }
    void reset(humoto::pepper_mpc::MPCParameters&t,const std::string&d,pbt::Case&){ t.setDefaults(); PBT_CHECK(canon(collect(t))==d,"setDefaults() differs from the default constructor"); checkDerived(t); }
    void reset(humoto::wpg04::MPCParameters&t,const std::string&d,pbt::Case&){ t.setDefaults(); PBT_CHECK(canon(collect(t))==d,"setDefaults() differs from the default constructor"); checkDerived(t); }
    template<class T> void zeros(T&,const std::string&){}
    template<class T> void zero_(T&t,const std::string&d){ t.setDefaults(); PBT_CHECK(canon(collect(t))==d,"setDefaults() differs from the default constructor"); Obj o=collect(t); for(auto&x:o) for(double v:x.second.a) PBT_CHECK(v==0,"default "<<x.first<<" is not zero"); }
    void zeros(humoto::rigidbody::PointMassState&t,const std::string&d){ zero_(t,d); } void zeros(humoto::rigidbody::RotaryState&t,const std::string&d){ zero_(t,d); } void zeros(humoto::rigidbody::RigidBodyState&t,const std::string&d){ zero_(t,d); }
};
PBT_PROP(defaults,3000,30000){ Def d(g); withClass(g.range(0,CLASSES-1),d); }
PBT_MAIN
