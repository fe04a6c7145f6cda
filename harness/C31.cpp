// PBT-rule: a history of at least two calls on one solver object of which one uses a guess, asks for an active set, fails or is refused
#include "core_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg; typedef humoto::ConstraintActivationType T; typedef humoto::SolverStatus ST;
struct Params: humoto::SolverParametersBase { int token,max_levels; Params():token(0),max_levels(100){} };
// what a solver was told; a user defined solver keeps it between the calls that the front end makes
struct Told { bool ready,has_guess,has_as; int n; const humoto::OptimizationProblem*op; VectorXd guess; humoto::ActiveSet as; Told():ready(false),has_guess(false),has_as(false),n(-1),op(0){} };
template<class Base> struct Core: Base
{
    Told st,solved; int solves,resets; ST::Status status; std::string desc; VectorXd answer; humoto::ActiveSet answer_as; Params used; bool misuse;
    Core():solves(0),resets(0),status(ST::OK),misuse(false){}
    void reset(){ ++resets; st=Told(); }
    void initialize(const humoto::OptimizationProblem&h,const humoto::SolutionStructure&s){ st=Told(); st.ready=true; st.op=&h; st.n=s.getNumberOfVariables(); }
    void solveHierarchy(humoto::Solution&s,const humoto::OptimizationProblem&h){ ++solves; if(!st.ready||st.op!=&h) misuse=true; solved=st; used=this->parameters_; st.ready=false; s.x_=answer; s.return_status_=status; }
    void checkInputs(const humoto::OptimizationProblem&h) const { Base::checkInputs(h); HUMOTO_ASSERT((int)h.getNumberOfLevels()<=this->parameters_.max_levels,"too many levels"); }
};
template<class Base> struct WithGuess: Base { void setSolutionGuess(const humoto::Solution&s){ if(!this->st.ready) this->misuse=true; this->st.has_guess=true; this->st.guess=s.x_; } };
template<class Base> struct WithAS: Base { void setActiveSet(const humoto::ActiveSet&a,const humoto::OptimizationProblem&h){ if(!this->st.ready||this->st.op!=&h) this->misuse=true; this->st.has_as=true; this->st.as=a; } void getActiveSet(humoto::ActiveSet&a,const humoto::OptimizationProblem&){ if(this->st.ready) this->misuse=true; a=this->answer_as; } };
typedef humoto::Solver<Params> B0_; typedef humoto::SolverGuessSolution<Params> B1_; typedef humoto::SolverGuessActiveSet<Params> B2_; typedef humoto::SolverGuessSolutionActiveSet<Params> B3_;
struct Input { humoto::OptimizationProblem op; Model m; Problem pr; humoto::Solution sol,guess; humoto::ActiveSet ag,as; int n,L; bool lastEq; };
static humoto::ActiveSet genAS(pbt::Case&g,const humoto::OptimizationProblem&op){ humoto::ActiveSet a; op.initializeActiveSet(a); for(size_t l=0;l<a.size();++l) for(int i=0;i<(int)a[l].size();++i) a[l][i]=(T::Type)g.range(1,4); return a; }
static bool same(const humoto::ActiveSet&a,const humoto::ActiveSet&b){ if(a.size()!=b.size()) return false; for(size_t l=0;l<a.size();++l){ if(a[l].size()!=b[l].size()) return false; for(int i=0;i<(int)a[l].size();++i) if(a[l][i]!=b[l][i]) return false; } return true; }
static void make(pbt::Case&g,Input&in){ in.n=g.range(1,4); in.L=g.range(1,3); in.op.reset(in.L); in.lastEq=true; for(int l=0;l<in.L;++l) for(int k=g.range(1,2);k>0;--k){ Ref r=genRef(g,in.n,true,1,3); if(l==in.L-1&&g.chance(2,3)) r=genRef(g,in.n,true,1,3,-1,g.range(B,B0)); if(l==in.L-1&&!r.eq()) in.lastEq=false; in.op.pushTask(makeTask(r,"t"),l); } in.pr.setVars(in.n); in.op.form(in.sol,in.m,in.pr); in.guess.initialize(in.sol); in.guess.x_=genVec(g,in.n,true); in.ag=genAS(g,in.op); in.as=genAS(g,in.op); }
enum { PLAIN,PARAMS,G,A_OUT,A_IN,A_IN_OUT,GA_IN,GA_OUT,GA_IN_OUT };
static bool guessGiven(int o){ return o==G||o>=GA_IN; } static bool asGiven(int o){ return o==A_IN||o==A_IN_OUT||o==GA_IN||o==GA_IN_OUT; } static bool asAsked(int o){ return o==A_OUT||o==A_IN_OUT||o==GA_OUT||o==GA_IN_OUT; }
template<int K> struct Kind {};
template<class S> void call(S&s,Input&in,const Params&p,int o,Kind<0>){ if(o==PARAMS) s.solve(in.sol,in.op,p); else s.solve(in.sol,in.op); }
template<class S> void call(S&s,Input&in,const Params&p,int o,Kind<1>){ if(o==G) s.solve(in.sol,in.op,in.guess); else call(s,in,p,o,Kind<0>()); }
template<class S> void call(S&s,Input&in,const Params&p,int o,Kind<2>){ if(o==A_OUT) s.solve(in.sol,in.as,in.op); else if(o==A_IN) s.solve(in.sol,in.op,in.ag); else if(o==A_IN_OUT) s.solve(in.sol,in.as,in.op,in.ag); else call(s,in,p,o,Kind<0>()); }
template<class S> void call(S&s,Input&in,const Params&p,int o,Kind<3>){ if(o==GA_IN) s.solve(in.sol,in.op,in.guess,in.ag); else if(o==GA_OUT) s.solve(in.sol,in.as,in.op,in.guess); else if(o==GA_IN_OUT) s.solve(in.sol,in.as,in.op,in.guess,in.ag); else if(o==G) call(s,in,p,o,Kind<1>()); else call(s,in,p,o,Kind<2>()); }
template<class S,int K> void history(pbt::Case&g,bool qp)
{
    static const std::vector<int> opts[]={{PLAIN,PARAMS},{PLAIN,PARAMS,G},{PLAIN,PARAMS,A_OUT,A_IN,A_IN_OUT},{PLAIN,PARAMS,G,A_OUT,A_IN,A_IN_OUT,GA_IN,GA_OUT,GA_IN_OUT}};
    S s; Params cur; int calls=g.range(1,6); bool interesting=false;
    auto params=[&]{ Params p; p.token=g.range(0,1000); p.crash_on_any_failure_=g.flip(); p.solve_two_levels_as_qp_=!g.chance(1,4); p.max_levels=g.chance(1,4)?g.range(1,2):100; return p; };
    for(int c=0;c<calls;++c)
    {
        if(g.chance(1,3)){ cur=params(); int r=s.resets; s.setParameters(cur); PBT_CHECK(s.resets>r,"new parameters do not reset the solver"); }
        Input in; make(g,in); int o=g.pick(opts[K]); Params given=params(); if(o==PARAMS) cur=given; s.status=g.pick(std::vector<ST::Status>{ST::OK,ST::OK,ST::OK,ST::MAX_ITER,ST::OTHER,ST::UNDEFINED}); s.answer=genVec(g,in.n,true); s.answer_as=genAS(g,in.op); humoto::ActiveSet before=in.as; in.sol.return_status_=g.flip()?ST::OK:ST::UNDEFINED; int n0=s.solves; g.note("overload",o).note("status",(int)s.status);
        bool refused=in.L>cur.max_levels||(qp&&(!cur.solve_two_levels_as_qp_||in.L>2||!in.lastEq)); bool fails=cur.crash_on_any_failure_&&s.status!=ST::OK; if(refused||fails||o>PARAMS) interesting=true;
        bool threw=pbt::throwsCleanly([&]{ call(s,in,given,o,Kind<K>()); });
        PBT_CHECK(!s.misuse,"the solver is used before it is initialised, or asked before it has solved");
        if(refused){ g.tag("refused"); PBT_CHECK(threw,"a hierarchy that the solver does not support is accepted"); PBT_CHECK(s.solves==n0,"an unsupported hierarchy is solved"); continue; }
        PBT_CHECK(s.solves==n0+1,"solved "<<s.solves-n0<<" times"); PBT_CHECK(s.used.token==cur.token&&s.used.crash_on_any_failure_==cur.crash_on_any_failure_&&s.used.solve_two_levels_as_qp_==cur.solve_two_levels_as_qp_,"parameters"); PBT_CHECK(s.solved.n==in.n,"solution structure"); 
        PBT_CHECK(s.solved.has_guess==guessGiven(o),"solution guess"<<(guessGiven(o)?" is not given to the solver":" left over")); if(guessGiven(o)) pbt::checkMat(s.solved.guess,in.guess.x_,"solution guess",0); PBT_CHECK(s.solved.has_as==asGiven(o),"active set guess"<<(asGiven(o)?" is not given to the solver":" left over")); if(asGiven(o)) PBT_CHECK(same(s.solved.as,in.ag),"active set guess");
        g.tag(fails?"failure raised":s.status!=ST::OK?"failure reported":"success"); PBT_CHECK(threw==fails,(fails?"a failure of the solver is not raised":"an error is raised")<<", status "<<s.status<<" reported as "<<in.sol.return_status_); PBT_CHECK(in.sol.return_status_==s.status,"status "<<in.sol.return_status_<<" instead of "<<s.status); pbt::checkMat(in.sol.x_,s.answer,"solution",0);
        if(threw) continue; PBT_CHECK(same(in.as,asAsked(o)?s.answer_as:before),(asAsked(o)?"the returned active set is not that of the solver":"active set changed"));
    }
    g.nontrivial(calls>1&&interesting);
}
PBT_PROP(entry_points,40000,800000)
{
    switch(g.range(0,4))
    {
        case 0: history<Core<B0_>,0>(g,false); break; case 1: history<WithGuess<Core<B1_> >,1>(g,false); break; case 2: history<WithAS<Core<B2_> >,2>(g,false); break; case 3: history<WithAS<WithGuess<Core<B3_> > >,3>(g,false); break;
        default: history<WithAS<WithGuess<Core<humoto::QPSolverMixin<B3_> > > >,3>(g,true); break;
    }
}
// a user's own status text appears in the error
struct Told2: humoto::Solution { std::string text; std::string getStatusDescription() const { return text; } };
PBT_PROP(error_text,4000,40000)
{
    Input in; make(g,in); Core<B0_> s; Told2 sol; sol.initialize(in.sol); sol.text="status <"+std::to_string(g.range(0,9999))+">"; s.status=g.flip()?ST::OTHER:ST::MAX_ITER; s.answer=genVec(g,in.n,true); g.nontrivial(); std::string what; try{ s.solve(sol,in.op); }catch(const std::exception&e){ what=e.what(); }
    PBT_CHECK(what.find(sol.text)!=std::string::npos,"the error '"<<what<<"' does not tell the status '"<<sol.text<<"'");
}
PBT_MAIN
