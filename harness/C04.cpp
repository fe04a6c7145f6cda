// PBT-rule: a history with at least one forming after a size change, an active set given back or a rebuilt hierarchy
// PBT-assume: a task that declares itself unchanged has the size it had when its active set was given back (the library documents the opposite as an error)
#include "core_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg;
typedef humoto::ConstraintActivationType T;
struct MT { TP p; TestTaskBase*t; std::vector<T::Type> actual; bool formed; int formed_n; };
PBT_PROP(history,60000,1500000)
{
    int n=g.size(1,5,20); Model m; Problem pr; pr.setVars(n); humoto::OptimizationProblem op; humoto::Solution s; humoto::ActiveSet guess;
    bool deep=g.chance(1,10); if(deep) g.tag("many levels"); int nt=deep?g.range(4,14):g.size(1,6,16); std::vector<MT> ts; std::vector<std::vector<int> > lev; std::vector<std::vector<int> > order; // order: simple/general push order per level
    for(int i=0;i<nt;++i){ MT t; Ref r=genRef(g,n,true,i<(deep?12:3)?1:0,3); t.p=makeTask(r,"t"+std::to_string(i),&t.t); t.formed=false; t.formed_n=0; ts.push_back(t); g.note("t",r.name()); }
    auto rebuild=[&]{ int L=g.range(1,std::min(deep?12:3,nt)); lev.assign(L,std::vector<int>()); op.reset(L); for(int i=0;i<nt;++i){ int l=i<L?i:g.range(0,L-1); lev[l].push_back(i); op.pushTask(ts[i].p,l); }
        PBT_CHECK(pbt::throwsCleanly([&]{ op.pushTask(ts[0].p,L); }),"push to a level that does not exist"); };
    rebuild(); bool formed=false,lastguess=false; int ops=g.size(2,16,60); bool interesting=false;
    auto formable=[&]{ for(auto&l:lev){ int c=0; for(int i:l) c+=ts[i].t->r.m; if(c==0) return false; } return true; };
    for(int o=0;o<ops;++o)
    {
        int k=g.range(0,10); g.note("op",k);
        if(k<=3)
        {   // form
            bool wg=(k==1||k==2); if(!formable()){ PBT_CHECK(pbt::throwsCleanly([&]{ op.form(s,m,pr); }),"empty level accepted"); g.tag("empty level"); for(auto&t:ts){ t.formed=false; t.t->unmodified=false; } formed=false; interesting=true; continue; }
            for(auto&t:ts){ if(!t.formed||t.formed_n!=n) t.t->unmodified=false; if(t.t->unmodified && t.actual.size() && (int)t.actual.size()!=t.t->r.m) t.t->unmodified=false; }
            humoto::Solution sg,old;
            if(k==1) op.form(s,guess,m,pr); else if(k==2) op.form(s,sg,guess,m,pr,old); else if(k==3) op.form(s,sg,m,pr,old); else op.form(s,m,pr);
            formed=true; for(auto&t:ts){ t.formed=true; t.formed_n=n; if(t.t->r.style==1&&!t.t->unmodified) g.tag("reset to defaults"); PBT_CHECK(t.t->badreset.empty(),t.t->badreset<<" in "<<t.t->r.name()); }
            PBT_CHECK((int)s.getNumberOfVariables()==n&&s.x_.size()==n,"solution structure");
            if(k>=2) PBT_CHECK(sg.x_.size()==n,"solution guess size");
            PBT_CHECK(op.getNumberOfLevels()==lev.size(),"levels");
            if(wg) PBT_CHECK(guess.size()==lev.size(),"guess levels");
            for(size_t l=0;l<lev.size();++l)
            {
                int ns=0,ng=0,ne=0,n2=0; for(int i:lev[l]){ const Ref&r=ts[i].t->r; (r.simple()?ns:ng)+=r.m; if(r.eq())ne+=r.m; if(r.two())n2+=r.m; }
                const humoto::HierarchyLevel&h=op[l]; PBT_CHECK((int)h.getNumberOfConstraints()==ns+ng&&(int)h.getNumberOfSimpleConstraints()==ns&&(int)h.getNumberOfGeneralConstraints()==ng&&(int)h.getNumberOfEqualityConstraints()==ne&&(int)h.getNumberOfInequalityConstraints()==ns+ng-ne&&(int)h.getNumberOfInequalityConstraintsOneSided()==ns+ng-ne+n2,"counts on level "<<l);
                PBT_CHECK(h.isSimple()==(ng==0)&&h.isEquality()==(ne==ns+ng),"kind of level");
                if(wg) PBT_CHECK((int)guess[l].size()==ns+ng,"guess size");
                std::vector<int> cover(ns+ng,0); size_t cnt=0;
                for(auto it=h.tasks_.begin();it!=h.tasks_.end();++it,++cnt)
                {
                    MT*t=0; for(int i:lev[l]) if(ts[i].p==it->ptr_) t=&ts[i]; PBT_CHECK(t,"task on a wrong level"); const Ref&r=t->t->r;
                    PBT_CHECK((int)it->location_.length_==r.m,"location length"); for(size_t q=it->location_.offset_;q<it->location_.end();++q){ PBT_CHECK(q<cover.size(),"location out of range"); ++cover[q]; PBT_CHECK(r.simple()? (int)q>=ng : (int)q<ng,"general constraints must precede simple ones"); }
                    if(wg) for(int i=0;i<r.m;++i){ T::Type e = (int)t->t->own.size()==r.m? t->t->own[i] : (t->t->unmodified&&t->actual.size())? t->actual[i] : (r.eq()?T::EQUALITY:T::INACTIVE); PBT_CHECK(guess[l][it->location_.offset_+i]==e,"guess for "<<r.name()<<" row "<<i<<": "<<guess[l][it->location_.offset_+i]<<" expected "<<e); if(t->t->unmodified&&t->actual.size()) g.tag("guess reused"); }
                }
                PBT_CHECK(cnt==lev[l].size(),"number of tasks on level"); for(int c:cover) PBT_CHECK(c==1,"constraints not covered exactly once");
            }
            lastguess=wg; (void)lastguess;
        }
        else if(k==4)
        {   // new contents and size
            int i=g.range(0,nt-1); const Ref&old=ts[i].t->r; Ref r=genRef(g,n,true,(i<3&&!g.chance(1,12))?1:0,4,old.body,old.bnd); ts[i].t->r=r; ts[i].t->unmodified=false; ts[i].formed=false; interesting=true; formed=false;
        }
        else if(k==5){ int i=g.range(0,nt-1); if(ts[i].formed) ts[i].t->unmodified=true; }
        else if(k==6){ int i=g.range(0,nt-1); ts[i].t->unmodified=false; }
        else if(k==7&&formed)
        {   // give back an active set
            humoto::ActiveSet as; op.initializeActiveSet(as); PBT_CHECK(as.size()==lev.size(),"active set levels");
            for(size_t l=0;l<lev.size();++l) for(size_t i=0;i<as[l].size();++i) as[l][i]=(T::Type)g.range(1,4);
            op.processActiveSet(as); interesting=true;
            for(size_t l=0;l<lev.size();++l) for(auto it=op[l].tasks_.begin();it!=op[l].tasks_.end();++it) for(auto&t:ts) if(t.p==it->ptr_){ t.actual.clear(); for(size_t q=0;q<it->location_.length_;++q) t.actual.push_back(as[l][it->location_.offset_+q]); }
            humoto::ActiveSet bad; PBT_CHECK(pbt::throwsCleanly([&]{ op.processActiveSet(bad); }),"active set with a wrong number of levels accepted");
        }
        else if(k==10){ MT&t=ts[g.range(0,nt-1)]; t.t->own.clear(); if(g.flip()){ for(int i=0;i<t.t->r.m;++i) t.t->own.push_back((T::Type)g.range(1,4)); g.tag("task with a guess of its own"); } }
        else if(k==8){ rebuild(); formed=false; interesting=true; }
        else if(k==9)
        {   int nn=g.size(1,5,20); if(nn!=n){ n=nn; pr.setVars(n); for(int i=0;i<nt;++i){ Ref r=genRef(g,n,true,i<3?1:0,3,ts[i].t->r.body,ts[i].t->r.bnd); ts[i].t->r=r; ts[i].t->unmodified=false; ts[i].formed=false; } formed=false; interesting=true; } }
        for(auto&t:ts){ PBT_CHECK(t.t->actual().size()==t.actual.size(),"actual active set size"); for(size_t i=0;i<t.actual.size();++i) PBT_CHECK(t.t->actual()[i]==t.actual[i],"actual active set"); }
    }
    g.nontrivial(interesting);
}
PBT_PROP(errors,20000,100000)
{   // forming without levels, without tasks, without a solution structure is rejected
    humoto::OptimizationProblem op; humoto::Solution s; Model m; Problem pr; int k=g.range(0,3); g.nontrivial(); int n=g.range(1,4); if(k!=3) pr.setVars(n);
    int L=g.range(1,3); if(k!=0){ op.reset(L); if(k!=1) for(int l=0;l<L;++l){ Ref r=genRef(g,n,true,1,2); op.pushTask(makeTask(r,"t"),l); } }
    PBT_CHECK(pbt::throwsCleanly([&]{ op.form(s,m,pr); })==(k!=2),"case "<<k);
    if(k==2){ op.reset(0); PBT_CHECK(pbt::throwsCleanly([&]{ op.form(s,m,pr); }),"empty hierarchy after reset accepted"); op.reset(L); PBT_CHECK(pbt::throwsCleanly([&]{ op.form(s,m,pr); }),"tasks survive a reset"); }
}
// generic zeroing task: change tracking over a history of structures and gains
class Zero : public humoto::TaskZeroVariables { public: Zero(double gn,const std::string&v):TaskZeroVariables(gn,"z",v){} bool mod() const { return is_modified_; } const humoto::ActiveSetConstraints&act() const { return getActualActiveSet(); } };
PBT_PROP(zero_task_history,40000,600000)
{
    double gain=g.real(0.5,3); std::string id=g.flip()?"b":""; boost::shared_ptr<Zero> z(new Zero(gain,id)); humoto::OptimizationProblem op; op.reset(1); op.pushTask(z,0);
    Model m; Problem pr; humoto::Solution s; humoto::ActiveSet gs; int a=g.range(0,3),b=g.range(1,4); int ops=g.range(1,6); g.nontrivial(ops>1); std::vector<T::Type> actual; 
    for(int o=0;o<ops;++o)
    {
        int ch=g.range(0,3); if(ch==1){ a=g.range(0,3); b=g.range(1,4); } if(ch==2){ gain=g.real(0.5,3); z->setGain(gain); }
        std::vector<std::pair<std::string,int> > parts; parts.push_back(std::make_pair("a",a)); parts.push_back(std::make_pair("b",b)); pr.setParts(parts); op.form(s,gs,m,pr); g.note("a",a).note("b",b).note("gain",gain);
        int off=id.empty()?0:a, len=id.empty()?a+b:b; PBT_CHECK((int)z->getNumberOfConstraints()==len,"rows"); for(int i=0;i<len;++i){ PBT_CHECK((int)z->getIndices()[i]==off+i,"index"); PBT_CHECK(z->getIGains()[i]==gain,"gain "<<z->getIGains()[i]<<" expected "<<gain); PBT_CHECK(gs[0][i]==T::EQUALITY,"guess"); }
        if(g.flip()||ch==1){ humoto::ActiveSet as; op.initializeActiveSet(as); as.set(0,T::EQUALITY); op.processActiveSet(as); }
    }
}
class Infeasible : public humoto::TaskInfeasibleInequality { public: Infeasible(double gn):TaskInfeasibleInequality(gn,"inf"){} const humoto::ActiveSetConstraints&act() const { return getActualActiveSet(); } };
PBT_PROP(other_generic_history,20000,300000)
{   // the infeasible inequality and the task that zeroes selected variables, reused while the number of variables changes
    int n=g.range(1,5); humoto::IndexVector iv(g.range(1,4)); for(int i=0;i<iv.size();++i) iv[i]=0; double gn=g.real(0.5,3); boost::shared_ptr<Infeasible> t(new Infeasible(g.real(0.5,3))); boost::shared_ptr<humoto::TaskZeroSelectedVariables> z(new humoto::TaskZeroSelectedVariables(iv,gn,"sel"));
    humoto::OptimizationProblem op; op.reset(2); op.pushTask(t,0); op.pushTask(z,1); Model m; Problem pr; humoto::Solution s; humoto::ActiveSet gs; int ops=g.range(1,6); g.nontrivial(ops>1); int last=-1; bool given=false; T::Type act=T::INACTIVE;
    for(int o=0;o<ops;++o)
    {
        if(g.flip()) n=g.range(1,5); pr.setVars(n); g.note("n",n); op.form(s,gs,m,pr); const Infeasible&c=*t;
        PBT_CHECK(c.getNumberOfConstraints()==1&&c.getA().rows()==1&&c.getA().cols()==n,"size of the infeasible constraint: "<<c.getA().rows()<<"x"<<c.getA().cols()<<" for "<<n<<" variables"); for(int i=0;i<n;++i) PBT_CHECK(c.getA()(0,i)==1,"matrix of the infeasible constraint");
        PBT_CHECK(c.getLowerBounds().size()==1&&c.getUpperBounds().size()==1&&c.getLowerBounds()[0]==1&&c.getUpperBounds()[0]==-1,"bounds of the infeasible constraint");
        T::Type e=(n==last&&given)?act:T::INACTIVE; PBT_CHECK(gs[0][0]==e,"guess "<<gs[0][0]<<" expected "<<e);
        const humoto::TaskZeroSelectedVariables&zc=*z; PBT_CHECK((int)zc.getNumberOfConstraints()==iv.size(),"rows"); for(int i=0;i<iv.size();++i){ PBT_CHECK(zc.getIndices()[i]==iv[i]&&zc.getIGains()[i]==gn,"selected variables"); PBT_CHECK(gs[1][i]==T::EQUALITY,"guess"); }
        last=n; if(g.flip()){ humoto::ActiveSet as; op.initializeActiveSet(as); act=(T::Type)g.range(1,4); as[0][0]=act; op.processActiveSet(as); given=true; }
    }
}
PBT_MAIN
