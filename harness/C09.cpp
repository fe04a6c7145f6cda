// PBT-rule: at least one operand with more than one element, or an out-of-range argument
// PBT-assume: data are multiples of 1/4 so that products are exact
#include "core_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg; using namespace etools;
static MatrixXd M(pbt::Case&g,int r,int c){ return genMat(g,r,c,true); }
static MatrixXd junk(pbt::Case&g){ int k=g.range(0,2); return k==0?MatrixXd():(k==1?MatrixXd::Constant(g.range(1,7),g.range(1,7),77.):MatrixXd::Constant(1,1,77.)); }
static void same(const MatrixXd&a,const MatrixXd&b,const char*w){ PBT_CHECK(a.rows()==b.rows()&&a.cols()==b.cols(),w<<": size "<<a.rows()<<"x"<<a.cols()<<" instead of "<<b.rows()<<"x"<<b.cols()); for(int j=0;j<a.cols();++j) for(int i=0;i<a.rows();++i) PBT_CHECK(std::fabs(a(i,j)-b(i,j))<=1e-10*(1+std::fabs(b(i,j))),w<<": element ("<<i<<","<<j<<") is "<<a(i,j)<<" instead of "<<b(i,j)); }
static MatrixXd low(const MatrixXd&a){ MatrixXd o=a; for(int i=0;i<o.rows();++i) for(int j=i+1;j<o.cols();++j) o(i,j)=0; return o; }
static MatrixXd naiveATA(const MatrixXd&A){ MatrixXd o=MatrixXd::Zero(A.cols(),A.cols()); for(int i=0;i<A.cols();++i) for(int j=0;j<A.cols();++j) for(int k=0;k<A.rows();++k) o(i,j)+=A(k,i)*A(k,j); return o; }
PBT_PROP(normal_matrices,60000,600000)
{
    int r=g.size(0,5,40),c=g.size(1,5,40),off=g.range(0,3),n=off+c+g.range(0,3); MatrixXd A=M(g,r,c),N=naiveATA(A); g.note("A",std::to_string(r)+"x"+std::to_string(c)); g.nontrivial(r*c>1);
    MatrixXd R=junk(g); getATA(R,A); same(low(R),low(N),"getATA"); MatrixXd Big=MatrixXd::Zero(n,n); Big.block(off,off,c,c)=N; R=junk(g); getATA(R,A,off,n); same(low(R),low(Big),"getATA with an offset");
    MatrixXd S=M(g,n,n),T=S; addATA(S,A,off); same(low(S),low(T+Big),"addATA with an offset"); for(int i=0;i<n;++i) for(int j=0;j<n;++j) if(j>i||i<off||j<off||i>=off+c||j>=off+c) PBT_CHECK(S(i,j)==T(i,j),"addATA changed element "<<i<<","<<j<<" outside of the lower triangle of its block");
    MatrixXd U=M(g,c,c),V=U; addATA(U,A); same(low(U),low(V+N),"addATA");
    MatrixXd W=M(g,n,n),X=W; convertLLTtoSymmetric(W); for(int i=0;i<n;++i) for(int j=0;j<n;++j) PBT_CHECK(W(i,j)==(i>=j?X(i,j):X(j,i)),"symmetric part at "<<i<<","<<j);
}
PBT_PROP(vertical_concatenation,60000,600000)
{
    int n=g.size(0,5,40),c=g.size(1,3,12); std::vector<MatrixXd> v; int rows=0,empty=0; for(int i=0;i<n;++i){ if(g.chance(2,5)){ v.push_back(MatrixXd(0,g.flip()?c:0)); ++empty; } else v.push_back(M(g,g.range(1,3),c)); rows+=v.back().rows(); }
    g.note("matrices",n); g.note("empty",empty); g.nontrivial(n>1); if(empty>1) g.tag("several empty"); MatrixXd ref(rows,rows?c:0); int o=0; for(auto&m:v) if(m.rows()){ ref.middleRows(o,m.rows())=m; o+=m.rows(); }
    MatrixXd R=junk(g); std::vector<MatrixXd> copy=v; concatenateMatricesVertically(R,v); if(rows) same(R,ref,"vertical concatenation"); else PBT_CHECK(R.size()==0,"concatenation of nothing is not empty"); for(int i=0;i<n;++i) PBT_CHECK(copy[i]==v[i],"input changed");
    if(rows&&g.chance(1,4)){ v.push_back(M(g,g.range(1,2),c+1)); g.nontrivial(); PBT_CHECK(pbt::throwsCleanly([&]{ concatenateMatricesVertically(R,v); }),"mismatching widths accepted"); }
}
PBT_PROP(horizontal_concatenation,60000,600000)
{
    int r=g.range(1,4); MatrixXd m[3]; int cols=0; for(int i=0;i<3;++i){ m[i]=g.chance(1,4)?MatrixXd(0,0):M(g,r,g.range(1,3)); cols+=m[i].cols(); } g.nontrivial(cols>1); MatrixXd R=junk(g);
    auto ref=[&](std::vector<MatrixXd> v){ int c=0; for(auto&x:v) c+=x.cols(); MatrixXd o(c?r:0,c); c=0; for(auto&x:v) if(x.cols()){ o.middleCols(c,x.cols())=x; c+=x.cols(); } return o; };
    concatenateMatricesHorizontally(R,m[0],m[1]); same(R,ref({m[0],m[1]}),"two matrices"); R=junk(g); concatenateMatricesHorizontally(R,m[0],m[1],m[2]); same(R,ref({m[0],m[1],m[2]}),"three matrices");
    int k=g.range(0,3); if(k&&m[0].rows()&&m[1].rows()&&m[2].rows()){ m[k-1]=M(g,r+1,2); PBT_CHECK(pbt::throwsCleanly([&]{ concatenateMatricesHorizontally(R,m[0],m[1],m[2]); }),"mismatching heights accepted"); if(k<3) PBT_CHECK(pbt::throwsCleanly([&]{ concatenateMatricesHorizontally(R,m[0],m[1]); }),"mismatching heights of two accepted"); }
}
PBT_PROP(removal,60000,600000)
{
    int r=g.size(1,5,40),c=g.size(1,5,40); MatrixXd A=M(g,r,c),B=A; bool row=g.flip(); int n=row?r:c; int k=g.range(0,n+1); g.note("remove",(row?"row ":"column ")+std::to_string(k)+" of "+std::to_string(r)+"x"+std::to_string(c)); g.nontrivial(r*c>1);
    auto f=[&]{ if(row) removeRow(B,k); else removeColumn(B,k); };
    if(k>=n){ g.tag("out of range"); PBT_CHECK(pbt::throwsCleanly(f),"out-of-range index accepted"); PBT_CHECK(A==B,"matrix changed by a rejected removal"); return; }
    f(); MatrixXd ref(row?r-1:r,row?c:c-1); for(int i=0;i<ref.rows();++i) for(int j=0;j<ref.cols();++j) ref(i,j)=A(i+(row&&i>=k),j+(!row&&j>=k)); same(B,ref,"after removal");
}
PBT_PROP(diagonal_and_kronecker,60000,600000)
{
    int n=g.size(0,4,20); std::vector<MatrixXd> v; int r=0,c=0; for(int i=0;i<n;++i){ v.push_back(M(g,g.range(0,3),g.range(1,3))); r+=v[i].rows(); c+=v[i].cols(); } MatrixXd ref=MatrixXd::Zero(r,c); int a=0,b=0; for(auto&m:v){ ref.block(a,b,m.rows(),m.cols())=m; a+=m.rows(); b+=m.cols(); } g.nontrivial(n>1); same(makeBlockDiagonal(v),ref,"block diagonal of matrices");
    MatrixXd X=M(g,g.range(1,3),g.range(1,3)); MatrixXd D=MatrixXd::Zero(n*X.rows(),n*X.cols()); for(int i=0;i<n;++i) D.block(i*X.rows(),i*X.cols(),X.rows(),X.cols())=X; if(n) same(makeBlockDiagonal(X,n),D,"copies on the diagonal"); else PBT_CHECK(makeBlockDiagonal(X,n).size()==0,"no copies");
    std::vector<Eigen::Matrix<double,2,3> > fx; for(int i=0;i<n;++i) fx.push_back(M(g,2,3)); MatrixXd F=MatrixXd::Zero(2*n,3*n); for(int i=0;i<n;++i) F.block(2*i,3*i,2,3)=fx[i]; same(makeBlockDiagonal(fx),F,"fixed-size blocks");
    int br=g.range(1,3),bc=g.range(1,3),nv=g.size(1,3,10),nh=g.size(1,3,10),id=g.size(1,3,6); MatrixXd K=M(g,br*nv,bc*nh),E=MatrixXd::Zero(K.rows()*id,K.cols()*id); for(int i=0;i<E.rows();++i) for(int j=0;j<E.cols();++j){ int ki=(i%(br*id))/br,kj=(j%(bc*id))/bc; if(ki==kj) E(i,j)=K((i/(br*id))*br+i%br,(j/(bc*id))*bc+j%bc); } same(multiplyBlockKroneckerIdentity(K,br,bc,id),E,"block Kronecker identity");
    if(br>1) PBT_CHECK(pbt::throwsCleanly([&]{ multiplyBlockKroneckerIdentity(MatrixXd(M(g,br*nv+1,bc*nh)),br,bc,id); }),"partial block rows accepted"); if(bc>1) PBT_CHECK(pbt::throwsCleanly([&]{ multiplyBlockKroneckerIdentity(MatrixXd(M(g,br*nv,bc*nh+1)),br,bc,id); }),"partial block columns accepted");
}
PBT_PROP(selection,60000,600000)
{
    int r=g.size(1,9,80),c=g.range(1,3),step=g.range(1,4),first=g.range(0,r-1); MatrixXd A=M(g,r,c); std::vector<int> idx; for(int i=first;i<r;i+=step) idx.push_back(i); MatrixXd ref(idx.size(),c); for(size_t i=0;i<idx.size();++i) ref.row(i)=A.row(idx[i]); g.nontrivial(idx.size()>1&&step>1); g.note("select",std::to_string(r)+" rows, first "+std::to_string(first)+", step "+std::to_string(step));
    same(selectRows(A,step,first),ref,"selectRows"); same(SelectionMatrix(step,first)*A,ref,"selection matrix"); VectorXd v=A.col(0); same(selectRows(v,step,first),ref.col(0),"selection from a vector"); if(first==0) same(selectRows(A,step),ref,"selectRows from the first row");
}
PBT_PROP(cross_product,60000,600000)
{
    Vector3 v=M(g,3,1),w=M(g,3,1); Vector3 x(v[1]*w[2]-v[2]*w[1],v[2]*w[0]-v[0]*w[2],v[0]*w[1]-v[1]*w[0]); CrossProductMatrix c(v); g.nontrivial(!x.isZero()); MatrixXd E(3,3); E<<0,-v[2],v[1],v[2],0,-v[0],-v[1],v[0],0;
    same(c.eval(),E,"matrix"); same(CrossProductMatrix::eval(v),E,"static matrix"); same(c*w,x,"cross product with a vector"); int k=g.range(1,4); MatrixXd L=M(g,k,3); same(L*c,L*E,"left product"); Matrix3 L3=M(g,3,3); same(L3*c,L3*E,"left 3x3 product"); MatrixXd out=junk(g); c.multiplyLeft(out,L); same(out,L*E,"multiplyLeft"); VectorXd o; c.multiplyRight(o,w); same(o,x,"multiplyRight"); same(c.eval()+c.eval().transpose(),MatrixXd::Zero(3,3),"skew symmetry");
}
PBT_PROP(transformation,30000,300000)
{
    MatrixXd R=M(g,3,3); VectorXd t=genVec(g,3,true); int n=g.size(1,5,40); MatrixXd P=M(g,3,n),ref(3,n); for(int i=0;i<n;++i) ref.col(i)=R*P.col(i)+t; g.nontrivial(n>1); same(etools::transform(P,R,t),ref,"transformed points"); Eigen::Matrix2d R2=M(g,2,2); Eigen::Vector2d t2=M(g,2,1); Eigen::Matrix<double,2,4> P2=M(g,2,4),ref2; for(int i=0;i<4;++i) ref2.col(i)=R2*P2.col(i)+t2; same(etools::transform(P2,R2,t2),ref2,"transformed planar points");
    MatrixXd u=P; unsetMatrix(u); for(int i=0;i<u.size();++i) PBT_CHECK(std::isnan(u(i)),"unset element is a number");
}
template<class T> void dims(int r,int c,const char*w){ PBT_CHECK(T::RowsAtCompileTime==r&&T::ColsAtCompileTime==c,w<<" has size "<<T::RowsAtCompileTime<<"x"<<T::ColsAtCompileTime); T m; m.setZero(); PBT_CHECK(m.rows()==r&&m.cols()==c,w); }
PBT_PROP(named_sizes,2000,20000)
{
#define D1(n) dims<Vector##n>(n,1,"Vector" #n); dims<Matrix##n>(n,n,"Matrix" #n);
#define D2(a,b) dims<Matrix##a##x##b>(a,b,"Matrix" #a "x" #b);
    g.nontrivial(); switch(g.range(0,9)){ case 0: D1(2) D1(3) D1(4) D1(5) D1(6) D1(7) D1(8) D1(9) D1(10) break; case 1: D2(1,2) D2(1,3) D2(1,4) D2(1,5) D2(1,6) D2(1,7) D2(1,8) D2(1,9) D2(1,10) break; case 2: D2(2,3) D2(2,4) D2(2,5) D2(2,6) D2(2,7) D2(2,8) D2(2,9) D2(2,10) break; case 3: D2(3,2) D2(3,4) D2(3,5) D2(3,6) D2(3,7) D2(3,8) D2(3,9) D2(3,10) break; case 4: D2(4,2) D2(4,3) D2(4,5) D2(4,6) D2(4,7) D2(4,8) D2(4,9) D2(4,10) break; case 5: D2(5,2) D2(5,3) D2(5,4) D2(5,6) D2(5,7) D2(5,8) D2(5,9) D2(5,10) break; case 6: D2(6,2) D2(6,3) D2(6,4) D2(6,5) D2(6,7) D2(6,8) D2(6,9) D2(6,10) break; case 7: D2(7,2) D2(7,3) D2(7,4) D2(7,5) D2(7,6) D2(7,8) D2(7,9) D2(7,10) break; case 8: D2(8,2) D2(8,3) D2(8,4) D2(8,5) D2(8,6) D2(8,7) D2(8,9) D2(8,10) break; default: D2(9,2) D2(9,3) D2(9,4) D2(9,5) D2(9,6) D2(9,7) D2(9,8) D2(9,10) D2(10,2) D2(10,3) D2(10,4) D2(10,5) D2(10,6) D2(10,7) D2(10,8) D2(10,9) }
}
PBT_MAIN
