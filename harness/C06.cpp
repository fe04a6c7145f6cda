// PBT-rule: a structure with at least two parts, or a guess between two different structures
#include "core_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg;
typedef std::vector<std::pair<std::string,int> > Parts;
static Parts genParts(pbt::Case&g,int minlen){ static const char*names[]={"cop","foot","base","body","x","","a b","cop2"}; Parts p; std::vector<int> used; int k=g.range(1,5); for(int i=0;i<k;++i){ int q=g.range(0,7); bool dup=false; for(int u:used) if(u==q) dup=true; if(dup) continue; used.push_back(q); p.push_back(std::make_pair(std::string(names[q]),g.size(minlen,5,80))); } return p; }
static int total(const Parts&p){ int n=0; for(auto&x:p) n+=x.second; return n; }
static int off(const Parts&p,const std::string&s,int&len){ int o=0; for(auto&x:p){ if(x.first==s){ len=x.second; return o; } o+=x.second; } len=0; return 0; }
static std::string str(const Parts&p){ std::string s; for(auto&x:p) s+=x.first+":"+std::to_string(x.second)+" "; return s; }
static void checkStructure(const humoto::SolutionStructure&s,const Parts&p)
{
    PBT_CHECK((int)s.getNumberOfVariables()==total(p),"number of variables"); PBT_CHECK(s.isNonEmpty()==!p.empty(),"isNonEmpty"); int o=0;
    for(auto&x:p){ humoto::Location l=s.getSolutionPartLocation(x.first); PBT_CHECK((int)l.offset_==o&&(int)l.length_==x.second,"location of part '"<<x.first<<"'"); o+=x.second; }
    humoto::Location u=s.getSolutionPartLocation("no such part"); PBT_CHECK(u.length_==0,"unknown part is not empty");
}
PBT_PROP(structure,100000,1500000)
{
    humoto::SolutionStructure s; int rounds=g.range(1,3);
    for(int r=0;r<rounds;++r)
    {
        Parts p=genParts(g,0); s.reset(); checkStructure(s,Parts()); for(auto&x:p) s.addSolutionPart(x.first,x.second); checkStructure(s,p); g.note("parts",str(p)); g.nontrivial(p.size()>1);
        MatrixXd M=genMat(g,g.range(0,3),total(p),true); const MatrixXd C=M; for(auto&x:p){ int len,o=off(p,x.first,len); pbt::checkMat(s.getMatrixPart(x.first,C),C.middleCols(o,len),"matrix part"); MatrixXd W=M; if(len){ s.getMatrixPart(x.first,W).setConstant(55); MatrixXd E=M; E.middleCols(o,len).setConstant(55); pbt::checkMat(W,E,"write through matrix part"); } }
    }
}
PBT_PROP(solution_parts,100000,1500000)
{
    humoto::Solution s; int rounds=g.range(1,3);
    for(int r=0;r<rounds;++r)
    {
        Parts p=genParts(g,0); Problem pr; pr.setParts(p); double v=val(g,true); bool how=g.flip();
        if(how) s.initialize(pr.getSolutionStructure(),v); else pr.initSolutionStructure(s);
        checkStructure(s,p); PBT_CHECK(s.x_.size()==total(p),"size of data"); if(how) for(int i=0;i<s.x_.size();++i) PBT_CHECK(s.x_[i]==v,"initial value");
        g.note("parts",str(p)); g.nontrivial(p.size()>1); VectorXd x=genVec(g,total(p),true); s.x_=x;
        for(auto&q:p)
        {
            int len,o=off(p,q.first,len); const humoto::Solution&c=s; pbt::checkMat(c.getSolutionPart(q.first),x.segment(o,len),"read part"); pbt::checkMat(s.getSolutionPart(q.first),x.segment(o,len),"read part"); pbt::checkMat(c.getData(humoto::Location(o,len)),x.segment(o,len),"read data");
            if(g.flip()){ VectorXd w=genVec(g,len,true); s.getSolutionPart(q.first)=w; x.segment(o,len)=w; pbt::checkMat(s.get_x(),x,"write part"); }
        }
        PBT_CHECK(s.getSolutionPart("no such part").size()==0,"unknown part"); PBT_CHECK(pbt::throwsCleanly([&]{ static_cast<const humoto::Solution&>(s).getData(humoto::Location(0,x.size()+1)); }),"out of range"); PBT_CHECK(pbt::throwsCleanly([&]{ s.getData(humoto::Location(x.size(),1)); }),"out of range");
    }
}
PBT_PROP(guess,100000,2000000)
{
    Parts a=genParts(g,0),b=genParts(g,0); if(g.flip()){ b=a; if(g.flip()&&b.size()>1) std::swap(b[0],b[b.size()-1]); if(g.flip()) b[0].second=g.range(0,5); }
    Problem pa,pb; pa.setParts(a); pb.setParts(b); humoto::Solution old,gs; pa.initSolutionStructure(old); old.x_=genVec(g,total(a),true); if(g.flip()){ gs.initialize(pa.getSolutionStructure(),3.0); }
    pb.guessSolution(gs,old); checkStructure(gs,b); VectorXd e=VectorXd::Zero(total(b)); int copied=0;
    for(auto&q:b) for(auto&w:a) if(q.first==w.first&&q.second==w.second){ int l1,l2,o1=off(b,q.first,l1),o2=off(a,q.first,l2); e.segment(o1,l1)=old.x_.segment(o2,l2); if(l1) ++copied; }
    g.note("old",str(a)).note("new",str(b)); g.nontrivial(copied>0); g.tag(copied?"parts carried over":"nothing to carry over"); pbt::checkMat(gs.get_x(),e,"guess");
}
PBT_PROP(location,100000,500000)
{   // ranges: end, equality and admissibility, including huge values that wrap around
    auto v=[&]{ switch(g.range(0,3)){ case 0: return (size_t)g.range(0,6); case 1: return (size_t)g.range(0,100); case 2: return std::numeric_limits<size_t>::max()-g.range(0,5); default: return (size_t)g.draw(~0ULL); } };
    size_t o=v(),l=v(),m=v(); humoto::Location L(o,l),K; K.set(o,l); PBT_CHECK(L==K&&!(L!=K),"equality"); PBT_CHECK(L.front()==o&&L.end()==o+l,"ends"); bool fits = l<=m && o<=m-l; PBT_CHECK(L.checkLength(m)==fits,"range ["<<o<<",+"<<l<<") within "<<m); g.nontrivial(l>0); humoto::Location M(o,l^1); PBT_CHECK(M!=L&&!(M==L),"inequality"); humoto::Location N(o^1,l); PBT_CHECK(N!=L&&!(N==L),"inequality");
}
PBT_MAIN
