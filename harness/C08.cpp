// PBT-rule: at least two blocks in some direction and a block larger than 1x1, or a rejection case
// PBT-assume: block diagonal matrices have as many block rows as block columns and block lower triangular ones at least as many; blocks that the declared structure excludes are zero in the storage; block sizes instantiated: fixed 2x2 2x3 3x1 1x3 1x1, dynamic, half-dynamic 2xD Dx3
#include "core_gen.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cg; using namespace etools; typedef MatrixSparsityType ST; typedef MatrixBlockSizeType BS; const int DY=BS::DYNAMIC;
template<int R,int C> struct Sz { int r,c; std::ptrdiff_t ar,ac; Sz(pbt::Case&g){ r=R>0?R:g.range(1,3); c=C>0?C:g.range(1,3); ar=R>0?0:r; ac=C>0?0:c; } };
// dense matrix with the declared structure
static MatrixXd genStruct(pbt::Case&g,int sp,int r,int c,int nv,int nh)
{
    MatrixXd m=MatrixXd::Zero(r*nv,c*nh); for(int i=0;i<nv;++i) for(int j=0;j<nh;++j) if(sp==ST::NONE||(sp==ST::DIAGONAL&&i==j)||(sp==ST::LEFT_LOWER_TRIANGULAR&&j<=i)) m.block(i*r,j*c,r,c)=genMat(g,r,c,true); return m;
}
static void blocks(pbt::Case&g,int sp,int&nv,int&nh){ nv=g.size(1,4,16); nh=sp==ST::DIAGONAL?nv:g.size(1,4,16); if(sp==ST::LEFT_LOWER_TRIANGULAR) nh=g.flip()?nv:std::min(nh,nv); g.note("blocks",std::to_string(nv)+"x"+std::to_string(nh)); }
// dense Kronecker product of every block with an identity
static MatrixXd kron(const MatrixXd&m,int r,int c,int s){ int nv=m.rows()/r,nh=m.cols()/c; MatrixXd o=MatrixXd::Zero(m.rows()*s,m.cols()*s); for(int i=0;i<o.rows();++i) for(int j=0;j<o.cols();++j){ int bi=i/(r*s),ki=(i%(r*s))/r,ii=i%r,bj=j/(c*s),kj=(j%(c*s))/c,jj=j%c; if(ki==kj) o(i,j)=m(bi*r+ii,bj*c+jj); } (void)nv; (void)nh; return o; }
static MatrixXd junk(pbt::Case&g){ int k=g.range(0,2); return k==0?MatrixXd():(k==1?MatrixXd::Constant(g.range(1,7),g.range(1,7),77.):MatrixXd::Constant(1,1,77.)); }
static void same(const MatrixXd&a,const MatrixXd&b,const char*w){ PBT_CHECK(a.rows()==b.rows()&&a.cols()==b.cols(),w<<": size "<<a.rows()<<"x"<<a.cols()<<" instead of "<<b.rows()<<"x"<<b.cols()); for(int j=0;j<a.cols();++j) for(int i=0;i<a.rows();++i) PBT_CHECK(std::fabs(a(i,j)-b(i,j))<=1e-10*(1+std::fabs(b(i,j))),w<<": element ("<<i<<","<<j<<") is "<<a(i,j)<<" instead of "<<b(i,j)); }

// scalar blocks are returned as numbers
inline MatrixXd asMat(double v){ return MatrixXd::Constant(1,1,v); } template<class T> MatrixXd asMat(const Eigen::DenseBase<T>&m){ return MatrixXd(m); }
inline void setBlk(double&d,const MatrixXd&m){ d=m(0,0); } template<class T> void setBlk(const Eigen::DenseBase<T>&b,const MatrixXd&m){ const_cast<Eigen::DenseBase<T>&>(b).derived()=m; }

template<int R,int C,ST::Type SP> void access(pbt::Case&g)
{
    Sz<R,C> z(g); int nv,nh; blocks(g,SP,nv,nh); int r=z.r,c=z.c; g.nontrivial(nv*nh>1&&r*c>1);
    MatrixXd M=MatrixXd::Zero(r*nv,c*nh); typedef BlockMatrix<R,C,SP> BM; BM bm(z.ar,z.ac); if(g.flip()){ bm.set(MatrixXd(MatrixXd::Constant(r*g.range(1,4),c*g.range(1,4),7.))); } bm.setZero(nv,nh);
    PBT_CHECK(bm.getNumberOfBlocksVertical()==nv&&bm.getNumberOfBlocksHorizontal()==nh&&bm.getNumberOfRows()==nv*r&&bm.getNumberOfColumns()==nh*c&&bm.getBlockRowsNum()==r&&bm.getBlockColsNum()==c,"size getters"); same(bm.getRaw(),M,"setZero");
    BM before(bm); MatrixXd Mbefore; int ops=g.range(1,6);
    for(int o=0;o<ops;++o)
    {
        if(o==ops/2){ before=bm; Mbefore=M; }
        int i=g.range(0,nv-1),j=g.range(0,nh-1); MatrixXd v=genMat(g,r,c,true);
        switch(g.range(0,5)){
        case 0: setBlk(bm(i,j),v); M.block(i*r,j*c,r,c)=v; break;
        case 1: { int d=g.range(0,std::min(nv,nh)-1); setBlk(bm(d),v); M.block(d*r,d*c,r,c)=v; break; }
        case 2: { int k=g.range(1,nh-j); MatrixXd w=genMat(g,r,c*k,true); bm.row(i,j,k)=w; M.block(i*r,j*c,r,c*k)=w; break; }
        case 3: { int k=g.range(1,nv-i); MatrixXd w=genMat(g,r*k,c,true); bm.column(j,i,k)=w; M.block(i*r,j*c,r*k,c)=w; break; }
        case 4: { bm.row(i,j)*=2; M.block(i*r,j*c,r,(nh-j)*c)*=2; break; }
        default: { bm.column(j,i)*=3; M.block(i*r,j*c,(nv-i)*r,c)*=3; } }
    }
    same(bm.getRaw(),M,"after writing"); if(Mbefore.size()) same(before.getRaw(),Mbefore,"copy taken before the writes");
    const BM&cb=bm; int i=g.range(0,nv-1),j=g.range(0,nh-1),kr=g.range(1,nh-j),kc=g.range(1,nv-i),d=g.range(0,std::min(nv,nh)-1);
    same(asMat(cb(i,j)),M.block(i*r,j*c,r,c),"block"); same(asMat(cb(d)),M.block(d*r,d*c,r,c),"diagonal block"); same(cb.row(i,j,kr),M.block(i*r,j*c,r,kr*c),"part of a row"); same(cb.row(i),M.middleRows(i*r,r),"row"); same(cb.column(j,i,kc),M.block(i*r,j*c,kc*r,c),"part of a column"); same(cb.column(j),M.middleCols(j*c,c),"column"); same(asMat(bm(i,j)),M.block(i*r,j*c,r,c),"block (non-const)");
    int k=g.range(0,r-1); MatrixXd sel(nv,nh*c); for(int q=0;q<nv;++q) sel.row(q)=M.row(q*r+k); same(bm.selectRowInBlocksAsMatrix(k),sel,"selected rows");
}

#define SIZES(F,...) switch(g.range(0,7)){ case 0: F<2,2 __VA_ARGS__>(g); break; case 1: F<2,3 __VA_ARGS__>(g); break; case 2: F<3,1 __VA_ARGS__>(g); break; case 3: F<1,3 __VA_ARGS__>(g); break; case 4: F<1,1 __VA_ARGS__>(g); break; case 5: F<DY,DY __VA_ARGS__>(g); break; case 6: F<2,DY __VA_ARGS__>(g); break; default: F<DY,3 __VA_ARGS__>(g); }
#define COMMA ,
template<int R,int C> void accessAny(pbt::Case&g){ switch(g.range(0,2)){ case 0: access<R,C,ST::NONE>(g); break; case 1: access<R,C,ST::DIAGONAL>(g); break; default: access<R,C,ST::LEFT_LOWER_TRIANGULAR>(g); } }
PBT_PROP(access_and_copy,80000,800000){ SIZES(accessAny) }

template<class B> void timesVec(const B&b,const MatrixXd&M,const VectorXd&x){ same(b*x,M*x,"block * vector"); }
inline void timesVec(const BlockMatrix<1,1,ST::LEFT_LOWER_TRIANGULAR>&,const MatrixXd&,const VectorXd&){} // not offered: does not compile
template<int R,int C,ST::Type SP> void productsSP(pbt::Case&g)
{
    Sz<R,C> z(g); int nv,nh; blocks(g,SP,nv,nh); int r=z.r,c=z.c; g.nontrivial(nv*nh>1&&r*c>1); MatrixXd M=genStruct(g,SP,r,c,nv,nh); const BlockMatrix<R,C,SP> bm(M,z.ar,z.ac); same(bm.getRaw(),M,"construction from a matrix");
    MatrixXd X=genMat(g,nh*c,g.range(1,4),true); VectorXd x=genVec(g,nh*c,true); same(bm*X,M*X,"block * matrix"); timesVec(bm,M,x); same(bm*X.leftCols(1),M*X.leftCols(1),"block * expression");
    MatrixXd out=junk(g); bm.multiplyRight(out,X); same(out,M*X,"multiplyRight into a used matrix");
    // right block diagonal factor with blocks of C x 2
    { const int C2=2; MatrixXd Dm=genStruct(g,ST::DIAGONAL,c,C2,nh,nh); const DiagonalBlockMatrix<C,C2> d(Dm,z.ac,0); same(bm*d,M*Dm,"block * block diagonal"); }
    { int c2=g.range(1,3); MatrixXd Dm=genStruct(g,ST::DIAGONAL,c,c2,nh,nh); const DiagonalBlockMatrix<C,DY> d(Dm,z.ac,c2); same(bm*d,M*Dm,"block * dynamic block diagonal"); }
    // interfaces over an existing matrix
    { MatrixXd W=M; BlockMatrixInterface<R,C,SP> bi(W,z.ar,z.ac); const ConstBlockMatrixInterface<R,C,SP> ci(W,z.ar,z.ac); int i=g.range(0,nv-1),j=SP==ST::DIAGONAL?i:g.range(0,std::min(nh-1,SP==ST::NONE?nh-1:i)); MatrixXd v=genMat(g,r,c,true); MatrixXd E=M; E.block(i*r,j*c,r,c)=v; setBlk(bi(i,j),v); same(W,E,"write through an interface"); same(asMat(ci(i,j)),v,"read through a constant interface"); same(ci*X,E*X,"interface * matrix"); same(bi.getRaw(),E,"raw of an interface"); }
}
template<int R,int C> void productsAny(pbt::Case&g){ switch(g.range(0,2)){ case 0: productsSP<R,C,ST::NONE>(g); break; case 1: productsSP<R,C,ST::DIAGONAL>(g); break; default: productsSP<R,C,ST::LEFT_LOWER_TRIANGULAR>(g); } }
PBT_PROP(products,80000,800000){ SIZES(productsAny) }

template<int R,int C> void diagonal(pbt::Case&g)
{
    Sz<R,C> z(g); int r=z.r,c=z.c,n=g.size(1,4,16); g.nontrivial(n>1&&r*c>1); g.note("n",n); MatrixXd M=genStruct(g,ST::DIAGONAL,r,c,n,n); const DiagonalBlockMatrix<R,C> d(M,z.ar,z.ac);
    MatrixXd X=genMat(g,g.range(1,4),n*r,true),out=junk(g); d.multiplyLeft(out,X); same(out,X*M,"matrix * block diagonal");
    MatrixXd G=genStruct(g,ST::NONE,c,2,n,g.range(1,3)); const GenericBlockMatrix<C,2> gb(G,z.ac,0); same(d*gb,M*G,"block diagonal * generic"); out=junk(g); d.multiplyRight(out,gb); same(out,M*G,"block diagonal * generic into a used matrix");
    MatrixXd L=genStruct(g,ST::LEFT_LOWER_TRIANGULAR,c,2,n,n); const LeftLowerTriangularBlockMatrix<C,2> lb(L,z.ac,0); same(d*lb,M*L,"block diagonal * lower triangular");
    if(g.chance(1,3)){ g.nontrivial(); int e=g.flip()?1:-1; if(n*std::min(r,c)+e<=0) e=1; MatrixXd Y=genMat(g,n*c+e,2,true),Z=genMat(g,2,n*r+e,true); MatrixXd o; PBT_CHECK(pbt::throwsCleanly([&]{ d.multiplyRight(o,Y); }),"factor of a wrong size accepted on the right"); PBT_CHECK(pbt::throwsCleanly([&]{ d.multiplyLeft(o,Z); }),"factor of a wrong size accepted on the left"); }
}
PBT_PROP(block_diagonal,60000,600000){ SIZES(diagonal) }

template<int R,int C,ST::Type SP> void selectionSP(pbt::Case&g)
{
    Sz<R,C> z(g); int nv,nh; blocks(g,SP,nv,nh); int r=z.r,c=z.c; g.nontrivial(nv*nh>1&&r>1); MatrixXd M=genStruct(g,SP,r,c,nv,nh); BlockMatrix<R,C,SP> bm(M,z.ar,z.ac); int k=g.range(0,r-1); MatrixXd sel(nv,nh*c); for(int q=0;q<nv;++q) sel.row(q)=M.row(q*r+k);
    auto s=bm.selectRowInBlocks(k); same(MatrixXd(s.getRaw()),sel,"selected row of every block"); PBT_CHECK(s.getNumberOfBlocksVertical()==nv&&s.getNumberOfBlocksHorizontal()==nh&&s.getNumberOfRows()==nv&&s.getNumberOfColumns()==nh*c,"size of the selection: "<<s.getNumberOfRows()<<"x"<<s.getNumberOfColumns()<<" in "<<s.getNumberOfBlocksVertical()<<"x"<<s.getNumberOfBlocksHorizontal()<<" blocks");
    int id=g.range(2,3); auto K=s.getBlockKroneckerProduct(id); MatrixXd out=junk(g); K.evaluate(out); same(out,kron(sel,1,c,id),"Kronecker product of a selection");
}
template<int R,int C> void selectionAny(pbt::Case&g){ switch(g.range(0,1)){ case 0: selectionSP<R,C,ST::NONE>(g); break; default: selectionSP<R,C,ST::LEFT_LOWER_TRIANGULAR>(g); } }
PBT_PROP(row_selection,40000,400000){ SIZES(selectionAny) }

template<class K> void kronVec(const K&k,const MatrixXd&M,const VectorXd&x,std::false_type){ same(k*x,M*x,"Kronecker product * vector"); }
template<class K> void kronVec(const K&,const MatrixXd&,const VectorXd&,std::true_type){} // not offered: does not compile
template<int R,int C,ST::Type SP> void kroneckerSP(pbt::Case&g)
{
    Sz<R,C> z(g); int nv,nh; blocks(g,SP,nv,nh); int r=z.r,c=z.c,id=g.range(2,3); g.note("identity",id); g.nontrivial(nv*nh>1); MatrixXd M=genStruct(g,SP,r,c,nv,nh),KM=kron(M,r,c,id); const BlockMatrix<R,C,SP> bm(M,z.ar,z.ac);
    auto K=bm.getBlockKroneckerProduct(id); same(K.evaluate(),KM,"Kronecker product"); MatrixXd out=junk(g); K.evaluate(out); same(out,KM,"Kronecker product into a used matrix");
    MatrixXd big=MatrixXd::Constant(KM.rows()+2,KM.cols()+3,5.); K.evaluate(big.block(1,2,KM.rows(),KM.cols())); same(big.block(1,2,KM.rows(),KM.cols()),KM,"Kronecker product into a block"); PBT_CHECK(big.row(0).isConstant(5)&&big.bottomRows(1).isConstant(5)&&big.leftCols(2).isConstant(5)&&big.rightCols(1).isConstant(5),"evaluation wrote outside of its block");
    VectorXd x=genVec(g,KM.cols(),true); kronVec(K,KM,x,std::integral_constant<bool,SP==ST::LEFT_LOWER_TRIANGULAR>());
    { int cc=g.range(1,3); MatrixXd Dm=genStruct(g,ST::DIAGONAL,c*id,cc,nh,nh); const DiagonalBlockMatrix<DY,DY> d(Dm,c*id,cc); same(K*d,KM*Dm,"Kronecker product * block diagonal (dynamic)"); out=junk(g); K.multiplyRight(out,d); same(out,KM*Dm,"Kronecker product * block diagonal into a used matrix");
      if(g.chance(1,3)){ g.nontrivial(); MatrixXd D2=genStruct(g,ST::DIAGONAL,c*id,cc,nh+1,nh+1); const DiagonalBlockMatrix<DY,DY> e(D2,c*id,cc); PBT_CHECK(pbt::throwsCleanly([&]{ K.multiplyRight(out,e); }),"wrong number of blocks accepted"); MatrixXd D3=genStruct(g,ST::DIAGONAL,c*id+1,cc,nh,nh); const DiagonalBlockMatrix<DY,DY> f(D3,c*id+1,cc); PBT_CHECK(pbt::throwsCleanly([&]{ K.multiplyRight(out,f); }),"wrong size of blocks accepted"); } }
}
template<int R,int C> void kroneckerAny(pbt::Case&g){ switch(g.range(0,2)){ case 0: kroneckerSP<R,C,ST::NONE>(g); break; case 1: kroneckerSP<R,C,ST::DIAGONAL>(g); break; default: kroneckerSP<R,C,ST::LEFT_LOWER_TRIANGULAR>(g); } }
PBT_PROP(kronecker,80000,800000){ SIZES(kroneckerAny) }
template<int ID> void scalarKron(pbt::Case&g)
{   // scalar blocks with fixed-size block diagonal factors, as the MPC modules use them
    int n=g.size(1,4,12),nv=g.size(1,4,12); g.nontrivial(n>1); MatrixXd Dm=genStruct(g,ST::DIAGONAL,ID,ID,n,n); const DiagonalBlockMatrix<ID,ID> d(Dm);
    MatrixXd M=genStruct(g,ST::NONE,1,1,nv,n); const GenericBlockMatrix<1,1> gm(M); same(gm.getBlockKroneckerProduct(ID)*d,kron(M,1,1,ID)*Dm,"scalar Kronecker * block diagonal"); GenericBlockKroneckerProduct<1,1> gk(M,ID); same(gk.evaluate(),kron(M,1,1,ID),"Kronecker class");
    MatrixXd L=genStruct(g,ST::LEFT_LOWER_TRIANGULAR,1,1,n,n); const LeftLowerTriangularBlockMatrix<1,1> lm(L); MatrixXd KL=kron(L,1,1,ID); same(lm.getBlockKroneckerProduct(ID)*d,KL*Dm,"lower triangular scalar Kronecker * block diagonal"); same(d*lm.getBlockKroneckerProduct(ID),Dm*KL,"block diagonal * lower triangular scalar Kronecker");
    LeftLowerTriangularBlockKroneckerProduct<1,1> lk(L,ID); same(lk.evaluate(),KL,"lower triangular Kronecker class"); MatrixXd DD=genStruct(g,ST::DIAGONAL,2,3,n,n); DiagonalBlockKroneckerProduct<2,3> dk(DD,ID); same(dk.evaluate(),kron(DD,2,3,ID),"diagonal Kronecker class");
    MatrixXd D2=genStruct(g,ST::DIAGONAL,ID,2,n,n); const DiagonalBlockMatrix<ID,2> d2(D2); same(gm.getBlockKroneckerProduct(ID)*d2,kron(M,1,1,ID)*D2,"scalar Kronecker * non-square block diagonal");
    PBT_CHECK(pbt::throwsCleanly([&]{ GenericBlockKroneckerProduct<1,1> bad(M,g.range(0,1)); }),"identity of size below two accepted");
}
PBT_PROP(scalar_kronecker,40000,400000){ if(g.flip()) scalarKron<2>(g); else scalarKron<3>(g); }

PBT_PROP(block_size,40000,400000)
{   // construction, set and change of block size reject matrices that are not made of whole blocks, and re-partition otherwise
    int r=g.range(1,3),c=g.range(1,3),R=g.range(1,8),C=g.range(1,8); MatrixXd M=genMat(g,R,C,true); bool ok=R%r==0&&C%c==0; g.nontrivial(!ok||R*C>r*c); int k=g.range(0,3); g.note("kind",k); g.tag(ok?"whole blocks":"partial blocks"); typedef GenericBlockMatrix<DY,DY> GB; GB b; bool th;
    if(k==0) th=pbt::throwsCleanly([&]{ b=GB(M,r,c); }); else if(k==1) th=pbt::throwsCleanly([&]{ b=GB(r,c); b.set(M); }); else if(k==2){ b=GB(M,1,1); th=pbt::throwsCleanly([&]{ b.setBlockSize(r,c); }); } else { GenericBlockMatrix<2,3> f; ok=R%2==0&&C%3==0; th=pbt::throwsCleanly([&]{ f.set(M); }); PBT_CHECK(th!=ok,"fixed blocks: "<<R<<"x"<<C<<(th?" rejected":" accepted")); if(ok) PBT_CHECK(f.getNumberOfBlocksVertical()==R/2&&f.getNumberOfBlocksHorizontal()==C/3,"fixed block numbers"); return; }
    PBT_CHECK(th!=ok,"matrix "<<R<<"x"<<C<<" in blocks "<<r<<"x"<<c<<(th?" rejected":" accepted")); if(!ok) return;
    same(b.getRaw(),M,"contents"); PBT_CHECK(b.getNumberOfBlocksVertical()==R/r&&b.getNumberOfBlocksHorizontal()==C/c&&b.getBlockRowsNum()==r&&b.getBlockColsNum()==c,"partition"); int i=g.range(0,R/r-1),j=g.range(0,C/c-1); same(b(i,j),M.block(i*r,j*c,r,c),"block of the new partition");
    PBT_CHECK(pbt::throwsCleanly([&]{ b.setBlockSize(0,c); })&&pbt::throwsCleanly([&]{ b.setBlockSize(r,-1); }),"non-positive block size accepted"); PBT_CHECK(pbt::throwsCleanly([&]{ GenericBlockMatrix<2,3> f(2,3); }),"size given for a fixed block accepted");
}
PBT_MAIN
