// Foot parameters with generated values (they can be set only through a configuration file).
#pragma once
#include <unistd.h>
namespace fg {
struct Foot { double max_step_len,min_feet_dist,max_feet_dist,feet_dist_default,foot_length,foot_width; };
inline std::string scratchFile(){ const char*s=getenv("PBT_SCRATCH"); return std::string(s&&*s?s:".")+"/foot"+std::to_string(getpid()); }
inline void load(humoto::walking::RobotFootParameters&p,const Foot&f)
{
    msgpack::sbuffer b; msgpack::packer<msgpack::sbuffer> k(&b); k.pack_map(1); k.pack(std::string("RobotFootParameters")); k.pack_map(6);
    k.pack(std::string("max_step_len")); k.pack(f.max_step_len); k.pack(std::string("min_feet_dist")); k.pack(f.min_feet_dist); k.pack(std::string("max_feet_dist")); k.pack(f.max_feet_dist);
    k.pack(std::string("feet_dist_default")); k.pack(f.feet_dist_default); k.pack(std::string("foot_length")); k.pack(f.foot_length); k.pack(std::string("foot_width")); k.pack(f.foot_width);
    std::string n=scratchFile(); FILE*h=fopen(n.c_str(),"wb"); if(!h) throw std::runtime_error("scratch file"); if(fwrite(b.data(),1,b.size(),h)!=b.size()) throw std::runtime_error("scratch file"); fclose(h);
    try { p.readConfig<humoto::config::msgpack::Reader>(n); } catch(...) { ::unlink(n.c_str()); throw; } ::unlink(n.c_str());
}
inline Foot gen(pbt::Case&g)
{
    Foot f={0.2,0.19,0.3,0.19,0.1372,0.058}; // the defaults
    if(g.chance(4,5)){ f.max_step_len=g.real(0.05,0.6); f.feet_dist_default=g.real(0.05,0.5); f.min_feet_dist=f.feet_dist_default*g.real(0.3,1); f.max_feet_dist=f.feet_dist_default+g.real(0,0.4); f.foot_length=g.real(0.05,0.4); f.foot_width=g.real(0.02,0.2); }
    return f;
}
}
