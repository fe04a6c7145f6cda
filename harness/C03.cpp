// PBT-rule: a level with at least two constraints of which at least one is violated or exactly on a bound
// PBT-assume: data are multiples of 1/4 so that the reference evaluation is exact; violations within 1e-12
#include "core_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg;
PBT_PROP(violations_and_active_set,150000,4000000)
{
    int n=g.size(1,5,20),lev=g.size(1,3,8); humoto::OptimizationProblem op; op.reset(lev); std::vector<std::vector<std::pair<Ref,TestTaskBase*> > > ts(lev); int total=0;
    for(int l=0;l<lev;++l){ int k=g.size(1,4,12); int rows=0; for(int i=0;i<k;++i){ Ref r=genRef(g,n,true,(i==k-1&&rows==0)?1:0,3); rows+=r.m; TestTaskBase*t; op.pushTask(makeTask(r,"t"+std::to_string(i),&t),l); ts[l].push_back(std::make_pair(r,t)); g.note("t"+std::to_string(l),r.name()); } total+=rows; }
    Model m; Problem pr; pr.setVars(n); humoto::Solution s; op.form(s,m,pr);
    int reps=g.range(1,3); humoto::Violations vi; humoto::ActiveSet as;
    for(int q=0;q<reps;++q)
    {
        s.x_=genVec(g,n,true); bool interesting=false; g.note("x",s.x_.transpose());
        op.computeViolations(vi,s); op.determineActiveSet(as,s);
        PBT_CHECK((int)vi.size()==lev&&(int)as.size()==lev,"levels");
        for(int l=0;l<lev;++l)
        {
            int cnt=0; for(auto&p:ts[l]) cnt+=p.first.m; PBT_CHECK((int)vi[l].size()==cnt&&(int)as[l].size()==cnt,"sizes"); int act=0;
            for(auto it=op[l].tasks_.begin();it!=op[l].tasks_.end();++it)
            {
                const Ref*r=0; for(auto&p:ts[l]) if(&p.second->task()==it->ptr_.get()) r=&p.first; PBT_CHECK(r,"unknown task");
                for(int i=0;i<r->m;++i)
                {
                    int row=it->location_.offset_+i; double v=0; for(int j=0;j<n;++j) v+=r->dense(i,j)*s.x_[j]; double lo=r->lo(i),hi=r->hi(i);
                    double ev; if(r->eq()) ev=v-lo; else if(lo>hi) ev = v<lo?v-lo:(v>hi?v-hi:0); else ev = v<lo?v-lo:(v>hi?v-hi:0);
                    PBT_CHECK(std::fabs(vi[l][row]-ev)<=1e-12,"violation of "<<r->name()<<" row "<<i<<": "<<vi[l][row]<<" expected "<<ev<<" (value "<<v<<", bounds "<<lo<<" "<<hi<<")");
                    if(r->bnd==LU||r->bnd==L||r->eq()) PBT_CHECK(std::fabs(vi[l].getLower(row)-(v-lo))<=1e-12,"difference to the lower bound");
                    if(r->bnd==LU||r->bnd==U||r->eq()) PBT_CHECK(std::fabs(vi[l].getUpper(row)-(v-hi))<=1e-12,"difference to the upper bound");
                    typedef humoto::ConstraintActivationType T; T::Type e;
                    if(r->eq()) e=T::EQUALITY; else if(r->bnd==LU&&lo>hi) e=T::UNDEFINED; else if(r->bnd==LU&&lo==hi) e=T::EQUALITY; else if(r->bnd!=U&&v<=lo) e=T::LOWER_BOUND; else if(r->bnd!=L&&v>=hi) e=T::UPPER_BOUND; else e=T::INACTIVE;
                    PBT_CHECK(as[l][row]==e,"activation of "<<r->name()<<" row "<<i<<": "<<as[l][row]<<" expected "<<e<<" (value "<<v<<", bounds "<<lo<<" "<<hi<<")");
                    if(e==T::LOWER_BOUND||e==T::UPPER_BOUND) ++act; if(ev!=0||v==lo||v==hi) interesting=true; if(v==lo||v==hi) g.tag("on bound"); else if(ev!=0) g.tag("violated"); else g.tag("inside");
                }
            }
            PBT_CHECK((int)as[l].countActiveInequalities()==act,"count of active inequalities");
        }
        g.nontrivial(interesting&&total>1);
    }
}
// containers of violations / active sets themselves
PBT_PROP(active_set_container,60000,1000000)
{
    typedef humoto::ConstraintActivationType T; humoto::ActiveSetConstraints a; std::vector<T::Type> m; int ops=g.range(1,10); g.nontrivial(ops>2);
    auto ty=[&]{ return (T::Type)g.range(0,4); };
    for(int o=0;o<ops;++o)
    {
        int k=g.range(0,6); g.note("op",k);
        switch(k)
        {
            case 0: { int n=g.size(0,8,60); T::Type t=ty(); a.initialize(n,t); m.assign(n,t); break; }
            case 1: { int off=g.range(0,(int)m.size()),len=g.range(0,(int)m.size()-off); T::Type t=ty(); a.set(humoto::Location(off,len),t); std::fill(m.begin()+off,m.begin()+off+len,t); break; }
            case 2: { T::Type t=ty(); a.set(t); std::fill(m.begin(),m.end(),t); break; }
            case 3: { int sh=g.range(0,(int)m.size()+1); T::Type t=ty(); if(sh>(int)m.size()){ PBT_CHECK(pbt::throwsCleanly([&]{ a.shift(sh,t); }),"a shift by more than the size accepted"); break; } a.shift(sh,t); m.erase(m.begin(),m.begin()+sh); m.insert(m.end(),sh,t); break; }
            case 4: { int off=g.range(0,(int)m.size()),len=g.range(0,(int)m.size()-off); humoto::ActiveSetConstraints b; b.initialize(len); for(int i=0;i<len;++i){ b[i]=ty(); m[off+i]=b[i]; } a.copyTo(humoto::Location(off,len),b); break; }
            case 5: { int off=g.range(0,(int)m.size()),len=g.range(0,(int)m.size()-off); humoto::ActiveSetConstraints b; if(g.flip()) b.initialize(g.range(0,5),ty()); b.initialize(a,humoto::Location(off,len)); PBT_CHECK((int)b.size()==len,"part size"); for(int i=0;i<len;++i) PBT_CHECK(b[i]==m[off+i],"part"); break; }
            case 6: if(m.size()) { int i=g.range(0,(int)m.size()-1); a[i]=ty(); m[i]=a[i]; } break;
        }
        PBT_CHECK(a.size()==m.size(),"size"); int c=0; for(size_t i=0;i<m.size();++i){ PBT_CHECK(a[i]==m[i],"entry "<<i); if(m[i]==T::LOWER_BOUND||m[i]==T::UPPER_BOUND) ++c; } PBT_CHECK((int)a.countActiveInequalities()==c,"count");
        PBT_CHECK(pbt::throwsCleanly([&]{ (void)static_cast<const humoto::ActiveSetConstraints&>(a)[m.size()]; }),"index out of range accepted");
        PBT_CHECK(pbt::throwsCleanly([&]{ a.set(humoto::Location(0,m.size()+1),T::EQUALITY); }),"location out of range accepted");
    }
}
PBT_PROP(violations_levels,20000,200000)
{   // clearing a level touches nothing else
    int L=g.range(1,5); humoto::Violations v; std::vector<std::vector<double> > lo(L),hi(L); g.nontrivial(L>1); std::vector<std::size_t> cn; for(int l=0;l<L;++l) cn.push_back(g.size(0,5,30)); v.initialize(L,cn); PBT_CHECK(v.size()==(size_t)L,"levels");
    for(int l=0;l<L;++l){ int n=cn[l]; PBT_CHECK((int)v[l].size()==n,"constraints of a level"); for(int i=0;i<n;++i){ double a=val(g,true),b=val(g,true); v[l].set(i,a,b); lo[l].push_back(a); hi[l].push_back(b); } }
    int ops=g.range(1,3); for(int o=0;o<ops;++o){ int l=g.range(0,L-1); v.setZero(l); std::fill(lo[l].begin(),lo[l].end(),0); std::fill(hi[l].begin(),hi[l].end(),0);
        for(int k=0;k<L;++k){ PBT_CHECK(v[k].size()==lo[k].size(),"size"); for(size_t i=0;i<lo[k].size();++i) PBT_CHECK(v[k].getLower(i)==lo[k][i]&&v[k].getUpper(i)==hi[k][i],"level "<<k<<" entry "<<i); } }
    PBT_CHECK(v.size()==(size_t)L,"levels"); PBT_CHECK(pbt::throwsCleanly([&]{ v.setZero(L); }),"level out of range accepted"); v.reset(); PBT_CHECK(v.size()==0,"reset");
}
PBT_PROP(violations_container,40000,500000)
{
    int n=g.size(1,8,60); humoto::ViolationsConstraints v; v.initialize(n); VectorXd lo=VectorXd::Zero(n),hi=VectorXd::Zero(n); v.setZero(); g.nontrivial();
    int ops=g.range(1,8); auto data=[&](int i){ return lo[i]<0?lo[i]:(hi[i]>0?hi[i]:0.0); };
    for(int o=0;o<ops;++o)
    {
        switch(g.range(0,3))
        {
            case 0: { int i=g.range(0,n-1); double a=val(g,true),b=val(g,true); v.set(i,a,b); lo[i]=a; hi[i]=b; break; }
            case 1: { int off=g.range(0,n),len=g.range(0,n-off); v.setZero(humoto::Location(off,len)); lo.segment(off,len).setZero(); hi.segment(off,len).setZero(); break; }
            case 2: { int off=g.range(0,n),len=g.range(0,n-off); humoto::ViolationsConstraints b; b.initialize(len); for(int i=0;i<len;++i){ double x=val(g,true),y=val(g,true); b.set(i,x,y); lo[off+i]=x; hi[off+i]=y; } v.copyTo(humoto::Location(off,len),b); break; }
            case 3: { int off=g.range(0,n),len=g.range(0,n-off); humoto::ViolationsConstraints b; b.initialize(g.range(0,4)); b.initialize(v,humoto::Location(off,len)); PBT_CHECK((int)b.size()==len,"size"); for(int i=0;i<len;++i) PBT_CHECK(b[i]==data(off+i)&&b.getLower(i)==lo[off+i]&&b.getUpper(i)==hi[off+i],"part"); break; }
        }
        for(int i=0;i<n;++i) PBT_CHECK(v[i]==data(i)&&v.getLower(i)==lo[i]&&v.getUpper(i)==hi[i],"entry "<<i);
        PBT_CHECK(pbt::throwsCleanly([&]{ v.set(n,1,1); }),"index out of range accepted");
    }
}
PBT_MAIN
