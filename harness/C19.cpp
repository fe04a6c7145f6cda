// PBT-rule: generated (not default) foot parameters and a rotated, displaced reference
// PBT-assume: positive dimensions, minimal distance of the feet at most the maximal one
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "pbt.h"
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
#include "foot_gen.h"
namespace wk=humoto::walking; typedef Eigen::Matrix2d M2; typedef Eigen::Vector2d V2; typedef humoto::LeftOrRight LR; typedef wk::FootBoundsType FB;
static M2 rot(double a){ M2 m; m<<std::cos(a),-std::sin(a),std::sin(a),std::cos(a); return m; }
static M2 mirror(const M2&b){ M2 m; m<<b(0,0),b(0,1),-b(1,1),-b(1,0); return m; } // bounds [lb ub] reflected in the sagittal plane
static bool inside(const M2&b,const V2&p,double tol=1e-12){ return p(0)>=b(0,0)-tol&&p(0)<=b(0,1)+tol&&p(1)>=b(1,0)-tol&&p(1)<=b(1,1)+tol; }
PBT_PROP(foot_geometry, 15000, 300000)
{
    fg::Foot f=fg::gen(g); wk::RobotFootParameters p; bool def=g.chance(1,12); int again=g.range(1,3); if(def){ f=fg::Foot{0.2,0.19,0.3,0.19,0.1372,0.058}; if(g.flip()){ fg::load(p,fg::gen(g)); p.setDefaults(); } } else { for(int i=1;i<again;++i) fg::load(p,fg::gen(g)); fg::load(p,f); if(g.flip()) fg::load(p,f); } wk::RobotFootParameters copy(static_cast<const wk::RobotFootParameters&>(p)); if(g.flip()) p=copy;
    g.note("foot",std::to_string(f.max_step_len)+" "+std::to_string(f.min_feet_dist)+" "+std::to_string(f.max_feet_dist)+" "+std::to_string(f.feet_dist_default)+" "+std::to_string(f.foot_length)+" "+std::to_string(f.foot_width)); g.nontrivial(!def);
    // position transforms
    double th=g.real(-4,4); M2 R=rot(th); V2 ads(g.real(-3,3),g.real(-3,3));
    for(int k=0;k<2;++k)
    {
        LR::Type s=k?LR::RIGHT:LR::LEFT,o=LR::invert(s); PBT_CHECK(LR::invert(o)==s&&o!=s,"inverting left and right"); double sign=k?-1:1;
        V2 foot=p.getFootPositionFromADS(s,R,ads); pbt::checkMat(foot,ads+R*V2(0,sign*f.feet_dist_default/2),"foot of a double support",1e-12,4);
        pbt::checkMat(p.getADSPositionFromFoot(s,R,foot),ads,"double support of a foot of a double support",1e-12,4); V2 any(g.real(-3,3),g.real(-3,3)); pbt::checkMat(p.getFootPositionFromADS(s,R,p.getADSPositionFromFoot(s,R,any)),any,"foot of the double support of a foot",1e-12,4);
        V2 other=p.getFootPositionFromADS(o,R,ads); pbt::checkMat((foot+other)/2,ads,"the double support is not between the feet",1e-12,4); PBT_CLOSE_TOL((foot-other).norm(),f.feet_dist_default,1e-9,"distance of the feet");
        // bounds: side by side for this foot
        M2 b=p.getFootBounds(s,FB::WITH_RESPECT_TO_SS),want; want<<-f.max_step_len,f.max_step_len,k?-f.max_feet_dist:f.min_feet_dist,k?-f.min_feet_dist:f.max_feet_dist; pbt::checkMat(b,want,"bounds on steps",1e-12,1);
        PBT_CHECK(b(0,0)<=b(0,1)&&b(1,0)<=b(1,1),"the lower bound exceeds the upper one"); V2 step(g.real(-1,1)*f.max_step_len,sign*(f.min_feet_dist+g.unit()*(f.max_feet_dist-f.min_feet_dist))); PBT_CHECK(inside(b,step),"an admissible step is excluded"); V2 bad=step; if(g.flip()) bad(0)=(g.flip()?1:-1)*(f.max_step_len+g.real(1e-6,1)); else bad(1)=sign*(g.flip()?f.max_feet_dist+g.real(1e-6,1):f.min_feet_dist-g.real(1e-6,1)); PBT_CHECK(!inside(b,bad,1e-9),"an inadmissible step is allowed");
        M2 fx=p.getFootBounds(s,FB::WITH_RESPECT_TO_ADS); pbt::checkMat(fx.col(0),V2(0,sign*f.feet_dist_default/2),"foot in a double support, lower bound",1e-12,1); pbt::checkMat(fx.col(1),fx.col(0),"foot in a double support, upper bound",1e-12,1);
        // the double support that follows a support on foot o is in the middle between it and foot s
        M2 al=p.getFootBounds(s,FB::ALIGNED_TO_SS); pbt::checkMat(al.col(1),al.col(0),"double support aligned to a foot",1e-12,1); V2 pos(g.real(-3,3),g.real(-3,3)); pbt::checkMat(V2(pos+R*al.col(0)),p.getADSPositionFromFoot(o,R,pos),"double support aligned to a foot",1e-12,4);
        for(FB::Type t:{FB::WITH_RESPECT_TO_SS,FB::WITH_RESPECT_TO_ADS,FB::ALIGNED_TO_SS}) PBT_CHECK(p.getFootBounds(o,t)==mirror(p.getFootBounds(s,t)),"the bounds of the feet are not mirror images"); PBT_CHECK(pbt::throwsCleanly([&]{ p.getFootBounds(s,FB::UNDEFINED); }),"undefined bounds");
    }
    PBT_CHECK(pbt::throwsCleanly([&]{ p.getFootBounds(LR::UNDEFINED,FB::ALIGNED_TO_SS); })&&pbt::throwsCleanly([&]{ LR::invert(LR::UNDEFINED); })&&pbt::throwsCleanly([&]{ p.getFootPositionFromADS(LR::UNDEFINED,R,ads); }),"an undefined foot is accepted");
    // centre of pressure
    M2 ss=p.getSSCoPBounds(),ds=p.getADSCoPBounds(); PBT_CHECK(ss==mirror(ss)&&ds==mirror(ds),"bounds on the centre of pressure are not symmetric"); V2 c((g.unit()-.5)*f.foot_length,(g.unit()-.5)*f.foot_width); PBT_CHECK(inside(ss,c),"a point of the sole is excluded"); PBT_CLOSE_TOL(ss(0,1)-ss(0,0),f.foot_length,1e-12,"length of the sole"); PBT_CLOSE_TOL(ss(1,1)-ss(1,0),f.foot_width,1e-12,"width of the sole"); PBT_CHECK(ss(0,1)==-ss(0,0),"the sole is not centred");
    for(int k=0;k<2;++k){ V2 q=p.getFootPositionFromADS(k?LR::RIGHT:LR::LEFT,M2::Identity(),V2::Zero())+c; PBT_CHECK(inside(ds,q),"a point of a sole in double support is excluded"); } PBT_CLOSE_TOL(ds(1,1),(f.feet_dist_default+f.foot_width)/2,1e-12,"width of the double support"); PBT_CLOSE_TOL(ds(0,1),f.foot_length/2,1e-12,"length of the double support"); PBT_CLOSE_TOL(ds(0,0),-f.foot_length/2,1e-12,"length of the double support");
    // containers
    humoto::LeftRightContainer<int> x,y; x[LR::LEFT]=1; x.setRight(2); y.setLeft(3); y[LR::RIGHT]=4; PBT_CHECK(x.getLeft()==1&&x[LR::RIGHT]==2,"container"); if(g.flip()) { x.copyLeft(y); PBT_CHECK(x[LR::LEFT]==3&&x.getRight()==2,"copying the left element"); } else { x.copyRight(y); PBT_CHECK(x[LR::LEFT]==1&&x.getRight()==4,"copying the right element"); } PBT_CHECK(y.getLeft()==3&&y.getRight()==4,"container");
}
PBT_MAIN
