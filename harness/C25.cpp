// PBT-rule: a horizon of at least two intervals, or at least two iterations
// PBT-assume: predictions compared with a tolerance relative to their magnitude
#include "pepper_gen.h"
using namespace pg;
PBT_PROP(predictions, 12000, 300000)
{
    Scenario c; c.gen(g); if(g.chance(1,8)){ // nothing can be predicted before there is a solution
        typedef const pm::MPCforMG CM; std::vector<unsigned char> mem(sizeof(pm::MPCforMG)+64,1); void*at=&mem[0]; size_t sp=mem.size(); at=std::align(alignof(pm::MPCforMG),sizeof(pm::MPCforMG),at,sp); bool par=g.flip(); pm::MPCforMG*m=par?new(at) pm::MPCforMG(static_cast<const pm::MPCParameters&>(c.mp)):new(at) pm::MPCforMG(); U z=g.range(0,100);
        bool ok=pbt::throwsCleanly([&]{ (void)static_cast<CM&>(*m).getNextModelState(c.model); })&&pbt::throwsCleanly([&]{ (void)m->getModelState(c.model,z); }); m->~MPCforMG(); PBT_CHECK(ok,"a new controller predicts states without a solution"); }
    int n=g.range(1,8),done=0; bool cont=false; VX oldx; std::vector<State> olds; std::vector<V2> oldj; U shift=0; humoto::Solution old;
    for(int k=0;k<n;++k,++done)
    {
        std::vector<const MP*> r; bool ok=preview(c.q,c.N,c.T,r); std::deque<MP> q0=c.q; auto st=c.mpc.update(c.q,c.model); PBT_CHECK((st==humoto::ControlProblemStatus::OK)==ok,"status"); if(!ok) break;
        U tq=g.range(0,(int)(c.N*c.T)); PBT_CHECK(pbt::throwsCleanly([&]{ (void)c.mpc.getModelState(c.model,tq); })&&pbt::throwsCleanly([&]{ (void)c.mpc.getModelState(c.model,tq/1000.); })&&pbt::throwsCleanly([&]{ (void)static_cast<const pm::MPCforMG&>(c.mpc).getNextModelState(c.model); }),"predictions are available before a solution is given");
        // guess
        humoto::Solution guess; if(g.chance(1,4)) guess.initialize(c.mpc.getSolutionStructure(),3.5); c.mpc.guessSolution(guess,old); PBT_CHECK(guess.x_.size()==(int)(4*c.N),"size of the guess"); VX gw=VX::Zero(4*c.N); if(oldx.size()){ gw.head(2*c.N-2)=oldx.segment(2,2*c.N-2); gw.segment(2*c.N,2*c.N-2)=oldx.segment(2*c.N+2,2*c.N-2); } { VX gb=guess.getSolutionPart(pm::BASE_VEL_VARIABLES_ID),gd=guess.getSolutionPart(pm::BODY_JERK_VARIABLES_ID); PBT_CHECK(gb==VX(gw.head(2*c.N))&&gd==VX(gw.tail(2*c.N)),"the guess is not the solution shifted by one interval"); }
        VX x=c.controls(g); bool same_plan=oldx.size()&&shift==c.T&&g.chance(2,3); if(same_plan){ x.head(2*c.N-2)=gw.head(2*c.N-2); x.segment(2*c.N,2*c.N-2)=gw.segment(2*c.N,2*c.N-2); } humoto::Solution sol=c.solution(x); std::vector<State> s; std::vector<V2> j; c.simulate(r,x,s,j); double tol=1e-13*c.amp();
        bool direct=g.flip(); if(!direct) c.mpc.parseSolution(sol); pm::ModelState ns=direct?c.mpc.getNextModelState(sol,c.model):static_cast<const pm::MPCforMG&>(c.mpc).getNextModelState(c.model); PBT_CHECK(pbt::throwsCleanly([&]{ (void)c.mpc.getNextModelState(sol,c.model); }),"a solution can be given twice"); double tn=1e-9*(1+1/c.Td()/c.Td()); same(ns,s[0],std::min(tn,1e-5)*(1+s[0].base.cwiseAbs().maxCoeff()),"next state");
        PBT_CHECK(c.mpc.cstate_profile_.size()==(int)(12*c.N)&&c.mpc.cop_profile_.size()==(int)(2*c.N)&&c.mpc.base_jerk_profile_.size()==(int)(2*c.N),"profiles have wrong sizes");
        for(U i=0;i<c.N;++i){ std::string w=" at the end of interval "+std::to_string(i); double mag=1+s[i].base.cwiseAbs().maxCoeff()+j[i].cwiseAbs().maxCoeff(),t=std::min(tol,1e-7*mag); pbt::checkMat(V6(c.mpc.cstate_profile_.segment<6>(6*i)),s[i].base,"base"+w,t,1); pbt::checkMat(V6(c.mpc.cstate_profile_.segment<6>(6*c.N+6*i)),s[i].body,"body"+w,1e-8*(1+s[i].body.cwiseAbs().maxCoeff()),1); pbt::checkMat(V2(c.mpc.cop_profile_.segment<2>(2*i)),s[i].cop(),"centre of pressure"+w,t,1); pbt::checkMat(V2(c.mpc.base_jerk_profile_.segment<2>(2*i)),j[i],"jerk of the base in interval "+std::to_string(i),t,1); }
        for(int z=0;z<3;++z){ U t=g.chance(1,3)?c.T*g.range(0,(int)c.N):(U)g.range(0,(int)(c.N*c.T)); State w=c.at(r,x,s,t/1000.); double tt=1e-7*(1+w.base.cwiseAbs().maxCoeff()); same(c.mpc.getModelState(c.model,t),w,tt,"state after "+std::to_string(t)+" ms"); double td=g.unit()*c.N*c.Td()*.999999; w=c.at(r,x,s,td); same(c.mpc.getModelState(c.model,td),w,tt=1e-7*(1+w.base.cwiseAbs().maxCoeff()),"state after "+std::to_string(td)+" s"); }
        U b=c.N*c.T+g.range(1,300); PBT_CHECK(pbt::throwsCleanly([&]{ (void)c.mpc.getModelState(c.model,b); })&&pbt::throwsCleanly([&]{ (void)c.mpc.getModelState(c.model,b/1000.); }),"state beyond the horizon");
        if(same_plan){ cont=true; for(U i=0;i+1<c.N;++i){ double mag=1+olds[i+1].base.cwiseAbs().maxCoeff()+oldj[i+1].cwiseAbs().maxCoeff(); pbt::checkMat(V6(c.mpc.cstate_profile_.segment<6>(6*i)),olds[i+1].base,"continued motion of the base, interval "+std::to_string(i),1e-6*mag,1); pbt::checkMat(V6(c.mpc.cstate_profile_.segment<6>(6*c.N+6*i)),olds[i+1].body,"continued motion of the body",1e-7*mag,1); pbt::checkMat(V2(c.mpc.cop_profile_.segment<2>(2*i)),olds[i+1].cop(),"continued motion of the centre of pressure",1e-6*mag,1); } }
        // advance by a whole interval or by a sub-sample
        if(c.Ts!=c.T&&g.flip()){ shift=c.Ts; pm::ModelState sub=c.mpc.getModelState(c.model,c.Ts); c.model.updateState(sub); c.s=c.at(r,x,s,c.Ts/1000.); } else { shift=c.T; c.model.updateState(ns); c.s=s[0]; }
        c.s.base=c.model.getMPCBaseState(); c.s.body=c.model.getMPCBodyState(); c.s.yaw=c.model.getTheta(); c.mpc.shift(c.q,shift); oldx=x; olds=s; oldj=j; old=sol; (void)q0;
    }
    if(cont) g.tag("continued"); g.nontrivial(c.N>1||done>1);
}
// the old solution may belong to a horizon of another length
PBT_PROP(guess_of_another_horizon, 2000, 40000)
{
    Scenario a,b; a.gen(g); if(a.mpc.update(a.q,a.model)!=humoto::ControlProblemStatus::OK) g.discard(); VX x=a.controls(g); humoto::Solution old=a.solution(x);
    b.gen(g); if(g.flip()) b.mpc=a.mpc, b.mpc.setParameters(b.mp); if(b.mpc.update(b.q,b.model)!=humoto::ControlProblemStatus::OK) g.discard();
    humoto::Solution guess; b.mpc.guessSolution(guess,old); PBT_CHECK(guess.x_.size()==(int)(4*b.N),"size of the guess"); VX gb=guess.getSolutionPart(pm::BASE_VEL_VARIABLES_ID),gd=guess.getSolutionPart(pm::BODY_JERK_VARIABLES_ID);
    for(U i=0;i<b.N;++i){ bool last=i+1==b.N; V2 wb=V2::Zero(),wd=wb; if(i+1<a.N){ wb=x.segment<2>(2*i+2); wd=x.segment<2>(2*a.N+2*i+2); } V2 vb=gb.segment<2>(2*i),vd=gd.segment<2>(2*i); PBT_CHECK((vb==wb||(last&&vb.isZero(0)))&&(vd==wd||(last&&vd.isZero(0))),"the guess of interval "<<i<<" is not the solution of the earlier horizon shifted by one interval"); }
    g.note("horizons",std::to_string(a.N)+"/"+std::to_string(b.N)); g.nontrivial(a.N!=b.N);
}
PBT_MAIN
