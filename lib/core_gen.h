// Generators and reference model for tasks of all 20 constraint forms.
#pragma once
#include "pbt.h"
#include "humoto/humoto.h"

namespace cg
{
using Eigen::MatrixXd; using Eigen::VectorXd;
const double INF = 1e20; // the library's documented representation of "no bound"
enum Body { I=0, GI=1, A=2, AS=3 };
enum Bnd { LU=0, L=1, U=2, B=3, B0=4 };
inline const char* bodyName(int b){ static const char*n[]={"I","GI","A","AS"}; return n[b]; }
inline const char* bndName(int b){ static const char*n[]={"LU","L","U","B","B0"}; return n[b]; }

struct Ref
{
    int body, bnd; int n, m; int style; // style: 0 assign, 1 reset to the defaults and fill entries, 2 reset without defaults
    std::vector<unsigned> idx; VectorXd gains; MatrixXd Araw; int offset;
    VectorXd lb, ub, b;      // as given to the task
    MatrixXd dense;          // m x n
    bool eq() const { return bnd==B||bnd==B0; }
    bool simple() const { return body==I||body==GI; }
    bool two() const { return bnd==LU; }
    double lo(int i) const { switch(bnd){ case LU: case L: return lb[i]; case U: return -INF; case B: return b[i]; default: return 0; } }
    double hi(int i) const { switch(bnd){ case LU: case U: return ub[i]; case L: return INF; case B: return b[i]; default: return 0; } }
    std::string name() const { std::ostringstream o; o<<bodyName(body)<<bndName(bnd)<<"["<<m<<"x"<<n<<"]"; return o.str(); }
    humoto::constraints::ConstraintType::Type type() const { typedef humoto::constraints::ConstraintType T;
        static const T::Type t[4][5]={{T::ILU,T::IL,T::IU,T::IB,T::IB0},{T::GILU,T::GIL,T::GIU,T::GIB,T::GIB0},{T::ALU,T::AL,T::AU,T::AB,T::AB0},{T::ASLU,T::ASL,T::ASU,T::ASB,T::ASB0}}; return t[body][bnd]; }
};

inline double val(pbt::Case&g,bool dyadic){ return dyadic ? (double)(g.range(0,32)-16)/4. : g.real(-5,5); }

inline Ref genRef(pbt::Case&g,int n,bool dyadic,int minm,int maxm,int body=-1,int bnd=-1,bool consistent=false)
{
    Ref r; r.n=n; r.body = body<0? g.range(0,3):body; r.bnd = bnd<0? g.range(0,4):bnd; r.m=maxm>=4&&minm<maxm?g.size(minm,maxm,4*maxm):g.range(minm,maxm); r.offset=0; r.style=g.range(0,4); if(r.style>2) r.style=0;
    r.dense=MatrixXd::Zero(r.m,n);
    if(r.body==I||r.body==GI)
    {
        for(int i=0;i<r.m;++i) r.idx.push_back(g.range(0,n-1));
        if(r.body==GI){ r.gains.resize(r.m); for(int i=0;i<r.m;++i) r.gains[i]=val(g,dyadic); }
        for(int i=0;i<r.m;++i) r.dense(i,r.idx[i]) = r.body==I?1.0:r.gains[i];
    }
    else
    {
        int c=n; if(r.body==AS){ c=g.range(1,n); r.offset=g.range(0,n-c); }
        r.Araw.resize(r.m,c); for(int i=0;i<r.m;++i) for(int j=0;j<c;++j) r.Araw(i,j)=val(g,dyadic);
        r.dense.block(0,r.offset,r.m,c)=r.Araw; if(r.style){ r.Araw=r.dense; r.offset=0; }
    }
    r.lb.resize(r.m); r.ub.resize(r.m); r.b.resize(r.m);
    for(int i=0;i<r.m;++i)
    {
        r.lb[i]=val(g,dyadic); int k=g.range(0,9);
        if(k==9 && !consistent) r.ub[i]=r.lb[i]-1-g.range(0,3); else if(k==0) r.ub[i]=r.lb[i]; else r.ub[i]=r.lb[i]+std::fabs(val(g,dyadic));
        r.b[i]=r.lb[i];
    }
    return r;
}

inline humoto::IndexVector iv(const std::vector<unsigned>&v){ humoto::IndexVector o(v.size()); for(size_t i=0;i<v.size();++i) o[i]=v[i]; return o; }

template<int K> struct Tag {};
template<class T> void fillBody(T&t,const Ref&r,Tag<I>){ t.getIndices()=iv(r.idx); }
template<class T> void fillBody(T&t,const Ref&r,Tag<GI>){ t.getIndices()=iv(r.idx); t.getIGains()=r.gains; }
template<class T> void fillBody(T&t,const Ref&r,Tag<A>){ t.getA()=r.Araw; }
template<class T> void fillBody(T&t,const Ref&r,Tag<AS>){ t.getA()=r.Araw; t.setOffset(r.offset); }
template<class T> void fillBnd(T&t,const Ref&r,Tag<LU>){ t.getLowerBounds()=r.lb; t.getUpperBounds()=r.ub; }
template<class T> void fillBnd(T&t,const Ref&r,Tag<L>){ t.getLowerBounds()=r.lb; }
template<class T> void fillBnd(T&t,const Ref&r,Tag<U>){ t.getUpperBounds()=r.ub; }
template<class T> void fillBnd(T&t,const Ref&r,Tag<B>){ t.getB()=r.b; }
template<class T> void fillBnd(T&t,const Ref&r,Tag<B0>){}

// fill after a reset: returns false if the reset has not prepared the documented contents
inline bool fillDense(Eigen::MatrixXd&A,const MatrixXd&d,bool init){ if(A.rows()!=d.rows()||A.cols()!=d.cols()) return false; for(int i=0;i<d.rows();++i) for(int j=0;j<d.cols();++j){ if(init&&A(i,j)!=0) return false; if(d(i,j)!=0||!init) A(i,j)=d(i,j); } return true; }
inline bool fillVec(Eigen::VectorXd&v,const VectorXd&d,bool init,double def){ if(v.size()!=d.size()) return false; for(int i=0;i<d.size();++i){ if(init&&v[i]!=def) return false; if(d[i]!=def||!init) v[i]=d[i]; } return true; }
template<class T> bool resetBody(T&t,const Ref&r,Tag<I>){ if(t.getIndices().size()!=r.m) return false; for(int i=0;i<r.m;++i) t.getIndices()[i]=r.idx[i]; return true; }
template<class T> bool resetBody(T&t,const Ref&r,Tag<GI>){ if(t.getIndices().size()!=r.m) return false; for(int i=0;i<r.m;++i) t.getIndices()[i]=r.idx[i]; return fillVec(t.getIGains(),r.gains,true,1.0); }
template<class T> bool resetBody(T&t,const Ref&r,Tag<A>){ return fillDense(t.getA(),r.dense,r.style==1); }
template<class T> bool resetBody(T&t,const Ref&r,Tag<AS>){ return t.getOffset()==0&&fillDense(t.getA(),r.dense,r.style==1); }
template<class T> bool resetBnd(T&t,const Ref&r,Tag<LU>){ return fillVec(t.getLowerBounds(),r.lb,r.style==1,-INF)&&fillVec(t.getUpperBounds(),r.ub,r.style==1,INF); }
template<class T> bool resetBnd(T&t,const Ref&r,Tag<L>){ return fillVec(t.getLowerBounds(),r.lb,r.style==1,-INF); }
template<class T> bool resetBnd(T&t,const Ref&r,Tag<U>){ return fillVec(t.getUpperBounds(),r.ub,r.style==1,INF); }
template<class T> bool resetBnd(T&t,const Ref&r,Tag<B>){ return fillVec(t.getB(),r.b,r.style==1,0); }
template<class T> bool resetBnd(T&t,const Ref&r,Tag<B0>){ return true; }
template<class T,int BODY> bool setTaskGain(T&t,double g,Tag<BODY>){ t.setGain(g); return true; }
template<class T> bool setTaskGain(T&,double,Tag<I>){ return false; }
struct TestTaskBase
{
    Ref r; bool unmodified; std::vector<humoto::ConstraintActivationType::Type> own; std::string badreset; virtual ~TestTaskBase(){}
    virtual const humoto::ActiveSetConstraints & actual() const = 0; virtual humoto::ActiveSetConstraints guessed() = 0; virtual bool gain(double) = 0;
    virtual const humoto::TaskBase & task() const = 0;
};
template<class T,int BODY,int BND> class TestTask : public T, public TestTaskBase
{
  public:
    TestTask(const Ref&ref,const std::string&name) : T(name) { r=ref; unmodified=false; }
    ~TestTask(){}
    const humoto::ActiveSetConstraints & actual() const { return T::getActualActiveSet(); } humoto::ActiveSetConstraints guessed() { return T::getActiveSetGuess(); } bool gain(double x) { return setTaskGain(*this,x,Tag<BODY>()); }
    const humoto::TaskBase & task() const { return *this; }
  protected:
    void guessActiveSet(const humoto::SolutionStructure&st,const humoto::Model&mo,const humoto::ControlProblem&cp)
    {
        T::guessActiveSet(st,mo,cp); if((int)own.size()!=r.m) return;
        humoto::ActiveSetConstraints&a=T::getActiveSetGuess(); for(int i=0;i<r.m;++i) a[i]=own[i];
    }
    void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&)
    {
        if(unmodified) { T::markAsUnmodified(); return; }
        if(r.style)
        {
            T::reset(r.m,r.n,r.style==1);
            if((int)T::getNumberOfConstraints()!=r.m||(int)T::getNumberOfVariables()!=r.n) badreset="size after a reset";
            if(resetBody(*this,r,Tag<BODY>())&&resetBnd(*this,r,Tag<BND>())) return;
            if(badreset.empty()) badreset="contents after a reset";
        }
        fillBody(*this,r,Tag<BODY>()); fillBnd(*this,r,Tag<BND>());
    }
};
typedef boost::shared_ptr<humoto::TaskBase> TP;
inline TP makeTask(const Ref&r,const std::string&name,TestTaskBase**out=0)
{
    #define CG_ONE(BO,BN) if(r.body==BO&&r.bnd==BN){ typedef TestTask<humoto::Task##BO##BN,BO,BN> X; X*x=new X(r,name); if(out) *out=x; return TP(x); }
    #define CG_ROW(BO) CG_ONE(BO,LU) CG_ONE(BO,L) CG_ONE(BO,U) CG_ONE(BO,B) CG_ONE(BO,B0)
    CG_ROW(I) CG_ROW(GI) CG_ROW(A) CG_ROW(AS)
    #undef CG_ROW
    #undef CG_ONE
    throw std::logic_error("makeTask");
}
struct Model : humoto::Model { void updateState(const humoto::ModelState&){} void log(humoto::Logger&,const humoto::LogEntryName&,const std::string&) const {} };
struct Problem : humoto::ControlProblem
{
    void log(humoto::Logger&,const humoto::LogEntryName&,const std::string&) const {}
    void setVars(int n){ sol_structure_.reset(); sol_structure_.addSolutionPart("x",n); }
    void setParts(const std::vector<std::pair<std::string,int> >&v){ sol_structure_.reset(); for(auto&p:v) sol_structure_.addSolutionPart(p.first,p.second); }
};
inline VectorXd genVec(pbt::Case&g,int n,bool dyadic){ VectorXd v(n); for(int i=0;i<n;++i) v[i]=val(g,dyadic); return v; }
inline MatrixXd genMat(pbt::Case&g,int r,int c,bool dyadic=false){ MatrixXd v(r,c); for(int i=0;i<r;++i) for(int j=0;j<c;++j) v(i,j)=val(g,dyadic); return v; }
}
