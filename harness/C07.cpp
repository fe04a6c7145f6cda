// PBT-rule: horizon of at least three steps, or a rejection case
// PBT-assume: relative tolerance 1e-9 on the magnitude of the simulated values; block sizes instantiated: fixed (3,1,1) (2,2,3) (2,1,2) (3,2,2) and dynamic ones with 1..3 states, 1..3 controls, 1..3 outputs
#include "core_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg; typedef std::vector<MatrixXd> MV;
struct P : humoto::MPC
{
    using humoto::MPC::condense; using humoto::MPC::condenseOutput; using humoto::MPC::condenseTimeInvariant;
    void log(humoto::Logger&,const humoto::LogEntryName&,const std::string&) const {}
};
struct Sys { int N,nx,nu,ny; MV A,B,D,E; VectorXd x0; std::vector<VectorXd> u; VectorXd X,Y,U; double scale; };
static void gen(pbt::Case&g,Sys&s,int nx,int nu,int ny,bool ti,bool tiout)
{
    s.N=g.size(1,7,30); s.nx=nx; s.nu=nu; s.ny=ny; g.note("N",s.N); g.nontrivial(s.N>=3);
    for(int i=0;i<s.N;++i){ if(i&&ti){ s.A.push_back(s.A[0]); s.B.push_back(s.B[0]); } else { s.A.push_back(genMat(g,nx,nx)*0.4); s.B.push_back(genMat(g,nx,nu)); } if(i&&tiout){ s.D.push_back(s.D[0]); s.E.push_back(s.E[0]); } else { s.D.push_back(genMat(g,ny,nx)); s.E.push_back(genMat(g,ny,nu)); } s.u.push_back(genVec(g,nu,false)); }
    s.x0=genVec(g,nx,false); VectorXd x=s.x0; s.X.resize(s.N*nx); s.Y.resize(s.N*ny); s.U.resize(s.N*nu); s.scale=1;
    for(int i=0;i<s.N;++i){ s.Y.segment(i*ny,ny)=s.D[i]*x+s.E[i]*s.u[i]; x=(s.A[i]*x+s.B[i]*s.u[i]).eval(); s.X.segment(i*nx,nx)=x; s.U.segment(i*nu,nu)=s.u[i]; }
    double a=1; double acc=0; for(int i=0;i<s.N;++i){ double na=s.A[i].norm(); acc=acc*na+s.B[i].norm()*(1+s.u[i].norm()); a*=std::max(1.0,na); s.scale=std::max(s.scale,std::max(acc*std::max(1.0,s.D[i].norm()),a*(1+s.x0.norm())*std::max(1.0,s.D[i].norm()))); }
}
static void cmp(const VectorXd&a,const VectorXd&b,const char*w,double sc){ PBT_CHECK(a.size()==b.size(),w<<": size "<<a.size()<<" instead of "<<b.size()); for(int i=0;i<a.size();++i) PBT_CHECK(std::fabs(a[i]-b[i])<=1e-9*sc,w<<": element "<<i<<" is "<<a[i]<<", simulation gives "<<b[i]); }
// the last block column must be zero above the diagonal: future controls do not influence the past
static void causal(const MatrixXd&U,int N,const char*w){ int r=U.rows()/N,c=U.cols()/N; for(int i=0;i<N;++i) for(int j=i+1;j<N;++j) PBT_CHECK(U.block(i*r,j*c,r,c).isZero(0),w<<": block "<<i<<","<<j<<" not zero"); }
static std::vector<double> conv(const MV&v,std::integral_constant<int,1>,std::integral_constant<int,1>){ std::vector<double> o; for(auto&m:v) o.push_back(m(0,0)); return o; } // 1x1 blocks are scalars
template<int R,int C> std::vector<Eigen::Matrix<double,R,C> > conv(const MV&v,std::integral_constant<int,R>,std::integral_constant<int,C>){ return std::vector<Eigen::Matrix<double,R,C> >(v.begin(),v.end()); }
template<int NX,int NU,int NY> void fixedCase(pbt::Case&g)
{
    Sys s; gen(g,s,NX,NU,NY,false,false); using namespace etools;
    GenericBlockMatrix<NX,NX> S; LeftLowerTriangularBlockMatrix<NX,NU> U; GenericBlockMatrix<NX,NU> Ug; GenericBlockMatrix<NY,NX> Ox; LeftLowerTriangularBlockMatrix<NY,NU> Ou;
    if(g.flip()){ S.setZero(2,2); S(1,1).setConstant(5); U.setZero(3,2); Ox.setZero(2,3); Ou.setZero(4,4); g.tag("reused output"); }
    std::vector<Eigen::Matrix<double,NX,NX> > A(s.A.begin(),s.A.end()); std::vector<Eigen::Matrix<double,NX,NU> > B(s.B.begin(),s.B.end()); std::vector<Eigen::Matrix<double,NY,NX> > D(s.D.begin(),s.D.end()); auto E=conv(s.E,std::integral_constant<int,NY>(),std::integral_constant<int,NU>());
    P::condense(S,U,A,B); P::condense(S,Ug,A,B);
    cmp(S.getRaw()*s.x0+U.getRaw()*s.U,s.X,"block condensing",s.scale); cmp(S.getRaw()*s.x0+Ug.getRaw()*s.U,s.X,"block condensing (generic U)",s.scale); causal(U.getRaw(),s.N,"U");
    VectorXd Uu=U*s.U; cmp(S.getRaw()*s.x0+Uu,s.X,"block product",s.scale);
    P::condenseOutput(Ox,Ou,D,E,S,U); cmp(Ox.getRaw()*s.x0+Ou.getRaw()*s.U,s.Y,"block output",s.scale); causal(Ou.getRaw(),s.N,"Ou");
    PBT_CHECK(Ox.getNumberOfBlocksVertical()==s.N&&Ou.getNumberOfBlocksHorizontal()==s.N,"number of blocks");
    MatrixXd Sd,Ud; P::condense(Sd,Ud,A,B); pbt::checkMat(Sd,S.getRaw(),"dense and block S",1e-9); pbt::checkMat(Ud,U.getRaw(),"dense and block U",1e-9);
}
PBT_PROP(fixed_blocks,40000,600000){ int k=g.range(0,3); g.note("kind",k); if(k==0) fixedCase<3,1,1>(g); else if(k==1) fixedCase<2,2,3>(g); else if(k==2) fixedCase<2,1,2>(g); else fixedCase<3,2,2>(g); }
PBT_PROP(dynamic_blocks,20000,300000)
{
    int nx=g.range(1,3),nu=g.range(1,3),ny=g.range(1,3); Sys s; gen(g,s,nx,nu,ny,false,false); using namespace etools; const int DY=MatrixBlockSizeType::DYNAMIC; g.note("nx,nu,ny",std::to_string(nx)+std::to_string(nu)+std::to_string(ny));
    GenericBlockMatrix<DY,DY> S(nx,nx); LeftLowerTriangularBlockMatrix<DY,DY> U(nx,nu); GenericBlockMatrix<DY,DY> Ox(ny,nx); LeftLowerTriangularBlockMatrix<DY,DY> Ou(ny,nu);
    P::condense(S,U,s.A,s.B); cmp(S.getRaw()*s.x0+U.getRaw()*s.U,s.X,"dynamic block condensing",s.scale); P::condenseOutput(Ox,Ou,s.D,s.E,S,U); cmp(Ox.getRaw()*s.x0+Ou.getRaw()*s.U,s.Y,"dynamic block output",s.scale);
}
PBT_PROP(dense,30000,400000)
{
    int nx=g.range(1,4),nu=g.range(1,3),ny=g.range(1,3); Sys s; gen(g,s,nx,nu,ny,false,true); MatrixXd S,U,Ox,Ou; if(g.flip()){ S=MatrixXd::Constant(3,2,7); U=MatrixXd::Constant(s.N*nx,s.N*nu,7); Ou=MatrixXd::Constant(s.N*ny,s.N*nu,9); Ox=Ou; }
    P::condense(S,U,s.A,s.B); cmp(S*s.x0+U*s.U,s.X,"dense condensing",s.scale); causal(U,s.N,"dense U"); P::condenseOutput(Ox,Ou,s.D[0],s.E[0],S,U); cmp(Ox*s.x0+Ou*s.U,s.Y,"dense output",s.scale);  causal(Ou,s.N,"dense Ou");
}
PBT_PROP(time_invariant,20000,300000)
{
    int nx=g.range(1,4),nu=g.range(1,3); Sys s; gen(g,s,nx,nu,1,true,true); MatrixXd S,U; if(g.flip()) U=MatrixXd::Constant(s.N*nx,s.N*nu,7);
    P::condenseTimeInvariant(S,U,s.N,s.A[0],s.B[0]); cmp(S*s.x0+U*s.U,s.X,"time invariant condensing",s.scale); causal(U,s.N,"time invariant U");
}
template<int NX,int NY> void groups(pbt::Case&g)
{
    using namespace etools; const int DY=MatrixBlockSizeType::DYNAMIC; int G=g.range(1,3),nu=0; std::vector<int> sz,off; for(int i=0;i<G;++i){ sz.push_back(g.range(1,3)); off.push_back(nu); nu+=sz[i]; }
    Sys s; gen(g,s,NX,nu,NY,false,false); std::vector<LeftLowerTriangularBlockMatrix<NX,MatrixBlockSizeType::DYNAMIC> > Uu(G); std::vector<LeftLowerTriangularBlockMatrix<NY,MatrixBlockSizeType::DYNAMIC> > Ou; if(g.flip()) Ou.resize(g.range(0,4)); GenericBlockMatrix<NX,NX> S; GenericBlockMatrix<NY,NX> Ox; (void)DY; g.note("groups",G);
    std::vector<Eigen::Matrix<double,NX,NX> > A(s.A.begin(),s.A.end()); std::vector<Eigen::Matrix<double,NY,NX> > D(s.D.begin(),s.D.end());
    VectorXd x=VectorXd::Zero(s.N*NX),y=VectorXd::Zero(s.N*NY);
    for(int i=0;i<G;++i){ MV B; for(auto&b:s.B) B.push_back(b.middleCols(off[i],sz[i])); Uu[i].setBlockSize(MatrixBlockSizeType::UNDEFINED,sz[i]); P::condense(S,Uu[i],A,B); }
    P::condenseOutput(Ox,Ou,D,s.E,S,Uu); PBT_CHECK((int)Ou.size()==G,"number of groups");
    for(int i=0;i<G;++i){ VectorXd u(s.N*sz[i]); for(int k=0;k<s.N;++k) u.segment(k*sz[i],sz[i])=s.u[k].segment(off[i],sz[i]); x+=Uu[i].getRaw()*u; PBT_CHECK(Ou[i].getRaw().cols()==u.size()&&Ou[i].getRaw().rows()==y.size(),"output size of group "<<i); y+=Ou[i].getRaw()*u; }
    cmp(S.getRaw()*s.x0+x,s.X,"states with several control groups",s.scale); cmp(Ox.getRaw()*s.x0+y,s.Y,"outputs with several control groups",s.scale);
}
PBT_PROP(control_groups,30000,400000){ int k=g.range(0,2); if(k==0) groups<3,1>(g); else if(k==1) groups<2,2>(g); else groups<2,3>(g); }
PBT_PROP(rejection,20000,200000)
{
    using namespace etools; g.nontrivial(); int k=g.range(0,7); Sys s; gen(g,s,3,1,1,false,false); g.nontrivial(); g.note("kind",k); GenericBlockMatrix<3,3> S; LeftLowerTriangularBlockMatrix<3,1> U; GenericBlockMatrix<1,3> Ox; LeftLowerTriangularBlockMatrix<1,1> Ou; MatrixXd Sd,Ud,Oxd,Oud; bool th=false;
    std::vector<double> E; for(auto&m:s.E) E.push_back(m(0,0));
    auto shorten=[&](MV&v){ if(g.flip()) v.pop_back(); else v.push_back(v[0]); };
    P::condense(S,U,s.A,s.B); P::condense(Sd,Ud,s.A,s.B);
    switch(k){
    case 0: shorten(s.B); th=pbt::throwsCleanly([&]{ P::condense(S,U,s.A,s.B); }); break;
    case 1: shorten(s.A); th=pbt::throwsCleanly([&]{ P::condense(Sd,Ud,s.A,s.B); }); break;
    case 2: s.A.clear(); s.B.clear(); th=pbt::throwsCleanly([&]{ P::condense(S,U,s.A,s.B); })&&pbt::throwsCleanly([&]{ P::condense(Sd,Ud,s.A,s.B); }); break;
    case 3: shorten(s.D); th=pbt::throwsCleanly([&]{ P::condenseOutput(Ox,Ou,s.D,E,S,U); }); break;
    case 4: if(g.flip()){ s.D.push_back(s.D[0]); E.push_back(E[0]); } else { s.D.pop_back(); E.pop_back(); } th=pbt::throwsCleanly([&]{ P::condenseOutput(Ox,Ou,s.D,E,S,U); }); break;
    case 5: U.setZero(s.N+(g.flip()?1:0),s.N+1); th=pbt::throwsCleanly([&]{ P::condenseOutput(Ox,Ou,s.D,E,S,U); }); break;
    case 6: S.setZero(s.N,2); th=pbt::throwsCleanly([&]{ P::condenseOutput(Ox,Ou,s.D,E,S,U); }); break;
    default: if(g.flip()) Ud=MatrixXd::Zero(Ud.rows(),Ud.cols()+1); else if(g.flip()) Ud=MatrixXd::Zero(Ud.rows()+1,Ud.cols()); else Sd=MatrixXd::Zero(Sd.rows(),4); th=pbt::throwsCleanly([&]{ P::condenseOutput(Oxd,Oud,s.D[0],s.E[0],Sd,Ud); }); break; }
    PBT_CHECK(th,"mismatching input accepted, kind "<<k);
}
PBT_MAIN
