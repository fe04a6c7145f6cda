SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

seed("B01", "C16", [("core/include/walking/stance_finite_state_machine.h",
 "stance_type.duration_ms_ = std::min(stance_fsm.current_stance_.duration_ms_ - stance_fsm.current_time_ms_, duration_ms);",
 "stance_type.duration_ms_ = std::min(stance_fsm.current_stance_.duration_ms_, duration_ms);")],
 """int main() { humoto::walking::StanceFSMParameters p; humoto::walking::StanceFiniteStateMachine f(p); f.shiftTime(450);
 std::vector<humoto::walking::Stance> s = f.previewStances(1500); std::size_t sum = 0; for (auto &x : s) sum += x.duration_ms_;
 EXPECT(s[0].duration_ms_ == 650); EXPECT(sum == 1500); return bad; }""",
 "a preview that starts in the middle of a stance and extends beyond it", "the previewed duration of the current stance ignores the time already spent in it")

seed("B02", "C18", [("core/include/walking/point_mass_model_6z.h", "A3 = A3 - B3*D3/Tsample;", "A3 = A3 - B3*D3/T;")],
 """int main() { using namespace humoto::walking; double h = 0.8, w = PointMassModel6z::getOmega(h); etools::Vector6 x; x << 0.1, 0.2, w*w*0.05, 0, 0, 0; etools::Vector2 u(0.1, 0);
 // centre of pressure moves linearly from 0.05 to 0.1 in 0.1 s: at half of it it is 0.075
 humoto::rigidbody::PointMassState s = PointMassModel6z::evaluate(0.05, 0.1, h, x, u); EXPECT(near(s.position_.x() - s.acceleration_.x()/(w*w), 0.075)); return bad; }""",
 "evaluation inside of a sampling interval (sub-sampling time shorter than the sampling time)", "states within a step do not follow the pendulum")

seed("B03", "C14", [("core/include/rigid_body/rotary_state.h", "current.col(2).cross(reference.col(2))", "reference.col(2).cross(current.col(2))")],
 """int main() { using namespace humoto::rigidbody; etools::Matrix3 I = etools::Matrix3::Identity(); 
 etools::Vector3 z = getRotationErrorAngleAxis(I, convertEulerAnglesToMatrix(etools::Vector3(0, 0, 0.3), EulerAngles::RPY)); EXPECT(near(z.z(), std::sin(0.3)));
 etools::Vector3 y = getRotationErrorAngleAxis(I, convertEulerAnglesToMatrix(etools::Vector3(0, 0.3, 0), EulerAngles::RPY)); EXPECT(near(y.y(), std::sin(0.3))); return bad; }""",
 "orientations that differ by roll or pitch (a difference in yaw only is computed correctly)", "the orientation error vanishes for rotations about horizontal axes")

seed("B04", "C17", [("core/include/walking/foot_trajectory.h", "z2_.initialize(step_height + a(2), b(2));", "z2_.initialize(step_height + b(2), b(2));")],
 """int main() { humoto::walking::Simple3DFootTrajectory t; using humoto::rigidbody::TrajectoryEvaluationType; t.initialize(etools::Vector3(0, 0, 0.1), etools::Vector3(0.2, 0, 0.05), 0.1);
 EXPECT(near(t.evalz(0.5, TrajectoryEvaluationType::POSITION), 0.2)); EXPECT(std::fabs(t.evalz(0.5 + 1e-9, TrajectoryEvaluationType::POSITION) - 0.2) < 1e-3); return bad; }""",
 "a step between different heights (stairs)", "the swing foot jumps in the middle of the step")

TASKS = """
typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
struct Model : humoto::Model { void updateState(const humoto::ModelState&){} void log(humoto::Logger&,const humoto::LogEntryName&,const std::string&) const {} };
struct Problem : humoto::ControlProblem { Problem(int n=2){ vars(n); } void vars(int n){ sol_structure_.reset(); sol_structure_.addSolutionPart("x",n); } void log(humoto::Logger&,const humoto::LogEntryName&,const std::string&) const {} };
inline humoto::IndexVector iv(const std::vector<unsigned>&v){ humoto::IndexVector o(v.size()); for(std::size_t i=0;i<v.size();++i) o[i]=v[i]; return o; }
struct EqA : humoto::TaskAB { MX A_; VX b_; EqA(const MX&A,const VX&b):humoto::TaskAB("EqA"),A_(A),b_(b){} void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&){ getA()=A_; getB()=b_; } };
struct EqI : humoto::TaskIB { std::vector<unsigned> i_; VX b_; EqI(const std::vector<unsigned>&i,const VX&b):humoto::TaskIB("EqI"),i_(i),b_(b){} void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&){ getIndices()=iv(i_); getB()=b_; } };
struct InA : humoto::TaskALU { MX A_; VX l_,u_; InA(const MX&A,const VX&l,const VX&u):humoto::TaskALU("InA"),A_(A),l_(l),u_(u){} void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&){ getA()=A_; getLowerBounds()=l_; getUpperBounds()=u_; } };
struct UpI : humoto::TaskIU { std::vector<unsigned> i_; VX u_; UpI(const std::vector<unsigned>&i,const VX&u):humoto::TaskIU("UpI"),i_(i),u_(u){} void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&){ getIndices()=iv(i_); getUpperBounds()=u_; } };
struct LuI : humoto::TaskILU { std::vector<unsigned> i_; VX l_,u_; LuI(const std::vector<unsigned>&i,const VX&l,const VX&u):humoto::TaskILU("LuI"),i_(i),l_(l),u_(u){} void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&){ getIndices()=iv(i_); getLowerBounds()=l_; getUpperBounds()=u_; } };
inline VX v2(double a,double b){ VX v(2); v<<a,b; return v; } inline VX v1(double a){ VX v(1); v<<a; return v; } inline MX m12(double a,double b){ MX m(1,2); m<<a,b; return m; }
template<class T> boost::shared_ptr<humoto::TaskBase> sp(T*t){ return boost::shared_ptr<humoto::TaskBase>(t); }
"""
PEPPER = """
namespace pm=humoto::pepper_mpc; typedef Eigen::VectorXd VX;
inline pm::ModelState state(double yaw=0){ pm::ModelState s; humoto::rigidbody::RigidBodyState b; humoto::rigidbody::PointMassState d; b.setDefaults(); d.setDefaults(); b.position_(2)=0.12; d.position_(2)=0.75; b.rpy_(2)=yaw; s.set(b,d); return s; }
inline pm::MotionParameters motion(double vx,std::ptrdiff_t ms,double w=0){ pm::MotionParameters m; m.base_velocity_<<vx,0; m.base_angular_velocity_=w; m.motion_mode_=pm::MotionMode::MAINTAIN_VELOCITY; m.duration_ms_=ms; return m; }
"""
WALK = """
namespace w4=humoto::wpg04; typedef humoto::walking::StanceType ST; typedef Eigen::VectorXd VX; typedef humoto::LeftOrRight LR;
struct Walk { w4::WalkParameters wp; w4::Model model; humoto::walking::StanceFiniteStateMachine fsm; w4::MPCforWPG mpc; 
 Walk(){ wp.setDefaults(); } 
 humoto::ControlProblemStatus::Status start(std::size_t N,std::size_t T,std::size_t Ts,std::size_t tds){ wp.tds_duration_ms_=tds; fsm.setParameters(wp); mpc.setParameters(w4::MPCParameters(N,T,Ts,tds)); return mpc.update(model,fsm,wp); } };
"""
CORE = ["humoto", "rigid_body", "walking", "kktsolver"]

seed("B05", "C05", [("core/include/kktsolver.h", "qp_problem_.getEqualities().getA()*iH_g + qp_problem_.getEqualities().getB())", "qp_problem_.getEqualities().getB())")],
 TASKS + """int main() { humoto::OptimizationProblem op; op.reset(2); op.pushTask(sp(new EqA(m12(1,1), v1(1))), 0); op.pushTask(sp(new EqI({0,1}, v2(3,1))), 1);
 Model m; Problem p; humoto::Solution s; op.form(s, m, p); humoto::kktsolver::SolverParameters par; par.solution_method_ = humoto::kktsolver::SolverParameters::CONSTRAINT_ELIMINATION_LLT;
 humoto::kktsolver::Solver k; k.setParameters(par); k.solve(s, op); EXPECT(near(s.x_(0), 1.5)); EXPECT(near(s.x_(1), -0.5)); return bad; }""",
 "the constraint elimination method and an objective with a nonzero target", "constraints of the first level are not satisfied", inc=CORE)

seed("B06", "C03", [("core/include/humoto/constraints_mixins.h", "if (t_Base::getProduct(i, solution.get_x()) >= t_Base::getUpperBounds()[i])", "if (t_Base::getProduct(i, solution.get_x()) > t_Base::getUpperBounds()[i])")],
 TASKS + """int main() { humoto::OptimizationProblem op; op.reset(2); op.pushTask(sp(new UpI({0,1}, v2(1,1))), 0); op.pushTask(sp(new EqI({0,1}, v2(3,0))), 1);
 Model m; Problem p; humoto::Solution s; op.form(s, m, p); s.x_ << 1, 0; s.return_status_ = humoto::SolverStatus::OK; humoto::ActiveSet a; op.determineActiveSet(a, s);
 EXPECT(a[0][0] == humoto::ConstraintActivationType::UPPER_BOUND); EXPECT(a[0][1] == humoto::ConstraintActivationType::INACTIVE); return bad; }""",
 "a task with upper bounds only and a value that lies exactly on its bound, as active set solvers return", "active upper bounds are reported as inactive", inc=CORE)

seed("B07", "C04", [("core/include/humoto/hierarchy_level.h", "number_of_twosided_constraints_ = 0;", "")],
 TASKS + """int main() { humoto::OptimizationProblem op; op.reset(2); op.pushTask(sp(new InA(m12(1,1), v1(-1), v1(1))), 0); op.pushTask(sp(new EqI({0,1}, v2(3,0))), 1); Model m; Problem p; humoto::Solution s;
 for (int i = 0; i < 3; ++i) { op.form(s, m, p); EXPECT(op[0].getNumberOfInequalityConstraintsOneSided() == 2); humoto::constraints::ContainerAL c; op[0].getInequalityConstraints(c, s); EXPECT(c.getNumberOfConstraints() == 2); } return bad; }""",
 "a hierarchy with two-sided inequalities that is formed more than once", "the number of one-sided inequalities grows on every control cycle and the containers get rows that are never written", inc=CORE)

seed("B08", "C24", [("modules/pepper_mpc/include/pepper_mpc/preview_horizon.h", "(remainder_ms + it->duration_ms_) % mpc_params.sampling_time_ms_", "it->duration_ms_ % mpc_params.sampling_time_ms_")],
 PEPPER + """int main() { pm::Model model; model.updateState(state()); pm::MPCforMG mpc(pm::MPCParameters(8,100,100)); std::deque<pm::MotionParameters> q; q.push_back(motion(.1,150)); q.push_back(motion(.2,180)); q.push_back(motion(.3,130)); q.push_back(motion(.4,pm::MotionParameters::UNLIMITED_DURATION));
 EXPECT(mpc.update(q, model) == humoto::ControlProblemStatus::OK); double e[8] = {.1, .2, .2, .3, .4, .4, .4, .4}; for (int i = 0; i < 8; ++i) EXPECT(near(mpc.preview_horizon_.getBaseReferenceVelocity(i)(0), e[i])); return bad; }""",
 "a queue with three or more motions whose durations are not multiples of the sampling time", "intervals of the horizon follow the wrong motion of the queue", inc=["humoto", "rigid_body", "pepper_mpc"])

seed("B10", "C20", [("modules/wpg04/include/wpg04/preview_horizon.h", "ds_theta        = lss_theta;", "ds_theta        = (lss_theta + rss_theta) / 2.;")],
 WALK + """int main() { Walk w; w.wp.theta_increment_ = 0.2; w.wp.num_steps_ = 2; w.wp.first_ss_type_ = ST::RSS; w.wp.first_stance_duration_ms_ = 200; w.wp.ss_duration_ms_ = 400; w.wp.last_stance_duration_ms_ = 3000;
 EXPECT(w.start(18, 100, 100, 100) == humoto::ControlProblemStatus::OK); bool l = false; double lss = 0; for (std::size_t i = 0; i < 18; ++i) { const w4::WalkState &x = w.mpc.preview_horizon_.getWalkState(i); if (x.type_ == ST::LSS) { l = true; lss = x.theta_; } if (l && x.type_ == ST::DS) EXPECT(near(x.theta_, lss)); } EXPECT(l); EXPECT(std::fabs(lss) > 0.1); return bad; }""",
 "a walk that turns and ends with a left support", "the final double support is not aligned with the last support", inc=["humoto", "rigid_body", "walking", "wpg04"])

seed("B12", "C33", [("core/include/humoto/violations.h", 'logger.log(LogEntryName(subname).add("upper_bound_diff"), upper_);', 'logger.log(LogEntryName(subname).add("upper_bound_diff"), lower_);')],
 TASKS + """#include <sstream>
int main() { humoto::OptimizationProblem op; op.reset(2); op.pushTask(sp(new LuI({0}, v1(-1), v1(1))), 0); op.pushTask(sp(new EqI({0,1}, v2(3,0))), 1); Model m; Problem p; humoto::Solution s; op.form(s, m, p); s.x_ << 3, 0; s.return_status_ = humoto::SolverStatus::OK;
 humoto::Violations v; op.computeViolations(v, s); std::ostringstream o; { humoto::Logger l(o); v.log(l); } std::cout << o.str(); std::size_t i = o.str().find("upper_bound_diff"); EXPECT(i != std::string::npos && o.str().find("2", i) != std::string::npos && o.str().find("2", i) < o.str().find("\\n", o.str().find("[", i))); return bad; }""",
 "a log of violations of an inequality", "the log tells wrong violations of upper bounds", inc=CORE)

seed("B13", "C06", [("core/include/humoto/solution.h", "initialize(sol_structure, 0.0);", "initialize(sol_structure);")],
 """int main() { int dirty = 0; for (int k = 0; k < 64; ++k) { humoto::SolutionStructure a, b; a.addSolutionPart("p", 2); b.addSolutionPart("p", 2); b.addSolutionPart("new", 40); humoto::Solution old, s; old.initialize(a, 3.0); s.initialize(b, 7.0); s.initialize(b, old);
 for (int i = 0; i < 40; ++i) if (s.getSolutionPart("new")(i) != 0) ++dirty; EXPECT(s.getSolutionPart("p")(1) == 3.0); } EXPECT(dirty == 0); return bad; }""",
 "a guess for a problem that has a part which the previous problem did not have, in a solution which is used repeatedly", "the guess contains leftovers of earlier values")

seed("B20", "C26", [("modules/pepper_mpc/include/pepper_mpc/task_coppositionbounds.h", "getActiveSetGuess().shift(2, ConstraintActivationType::INACTIVE);", "getActiveSetGuess().shift(1, ConstraintActivationType::INACTIVE);")],
 PEPPER + """struct H : humoto::OptimizationProblem { };
 int main() { pm::Model model; model.updateState(state()); pm::MPCforMG mpc(pm::MPCParameters(4,100,100)); std::deque<pm::MotionParameters> q; q.push_back(motion(.1,pm::MotionParameters::UNLIMITED_DURATION)); mpc.update(q, model);
 humoto::OptimizationProblem op; op.reset(1); op.pushTask(boost::shared_ptr<humoto::TaskBase>(new pm::TaskCoPPositionBounds()), 0); humoto::Solution s; humoto::ActiveSet a, g; op.form(s, g, model, mpc); op.initializeActiveSet(a); for (int i = 0; i < 8; ++i) a[0][i] = i % 3 == 0 ? humoto::ConstraintActivationType::UPPER_BOUND : i % 3 == 1 ? humoto::ConstraintActivationType::LOWER_BOUND : humoto::ConstraintActivationType::INACTIVE;
 op.processActiveSet(a); op.form(s, g, model, mpc); for (int i = 0; i < 6; ++i) EXPECT(g[0][i] == a[0][i + 2]); for (int i = 6; i < 8; ++i) EXPECT(g[0][i] == humoto::ConstraintActivationType::INACTIVE); return bad; }""",
 "hot starting from the active set of the previous cycle, with active bounds of the centre of pressure", "the guess of the active set mixes up the axes", inc=["humoto", "rigid_body", "pepper_mpc"])

seed("B24", "C25", [("modules/pepper_mpc/include/pepper_mpc/mpc_mg.h", "theta_prev = preview_horizon_.intervals_[interval_index-1].theta_;", "theta_prev = model.getTheta();")],
 PEPPER + """int main() { pm::Model model; model.updateState(state(0.1)); pm::MPCforMG mpc(pm::MPCParameters(5,100,50)); std::deque<pm::MotionParameters> q; q.push_back(motion(.1,pm::MotionParameters::UNLIMITED_DURATION,0.5)); mpc.update(q, model);
 humoto::Solution s; s.initialize(mpc.getSolutionStructure(), 0.1); EXPECT(near(mpc.getNextModelState(s, model).base_state_.rpy_(2), 0.15)); EXPECT(near(mpc.getModelState(model, std::size_t(250)).base_state_.rpy_(2), 0.225)); return bad; }""",
 "a rotating base and a state that is requested for a time inside of a later interval", "the orientation of the base is wrong between the samples of the horizon", inc=["humoto", "rigid_body", "pepper_mpc"])

seed("B25", "C34", [("core/include/humoto/utility.h", "return (    (offset_ <= end()) &&\n                            (end() <= max_length) );", "return (end() <= max_length);")],
 """int main() { humoto::Location l(static_cast<std::size_t>(-2), 5); EXPECT(!l.checkLength(10)); EXPECT(humoto::Location(2, 5).checkLength(10)); EXPECT(!humoto::Location(6, 5).checkLength(10)); return bad; }""",
 "an offset near the largest number, such as a negative offset that was converted", "a range that wraps around is accepted")

MSG = ["config_msgpack", "humoto", "rigid_body", "walking", "wpg04"]

seed("B09", "C21", [("modules/wpg04/include/wpg04/mpc_wpg.h", "position_xy = footpos_profile.segment(0, 2);", "position_xy = model.current_support_position_ + preview_horizon_.getWalkState(0).rotation_ * (footpos_profile.segment(0, 2) - model.current_support_position_);")],
 WALK + """int main() { Walk w; w.wp.theta_increment_ = 0.3; w.wp.num_steps_ = 4; w.wp.first_stance_duration_ms_ = 100; w.wp.ss_duration_ms_ = 200; int landed = 0;
 if (w.start(10, 100, 100, 100) != humoto::ControlProblemStatus::OK) return 1;
 for (int k = 0; k < 12; ++k) { if (w.mpc.update(w.model, w.fsm, w.wp) != humoto::ControlProblemStatus::OK) break; humoto::Solution s; s.initialize(w.mpc.getSolutionStructure(), 0.0); VX f = s.getSolutionPart(w4::FOOTPOS_VARIABLES_ID);
  for (int i = 0; i < f.size() / 2; ++i) { const w4::WalkState &x = w.mpc.preview_horizon_.getWalkState(w.mpc.preview_horizon_.variable_steps_indices_[i]); f(2*i) = 0.05; f(2*i+1) = x.type_ == ST::LSS ? 0.2 : -0.2; } s.getSolutionPart(w4::FOOTPOS_VARIABLES_ID) = f;
  w.mpc.parseSolution(s); VX fp = w.mpc.footpos_profile; ST::Type before = w.model.state_.stance_type_; w.fsm.shiftTime(100); w4::ModelState n = w.mpc.getNextModelState(w.fsm, w.model);
  if (n.stance_type_ == ST::TDS && before != ST::DS && w.fsm.getNextStance().type_ != ST::DS) { ++landed; LR::Type foot = before == ST::LSS ? LR::RIGHT : LR::LEFT; EXPECT(near(n.feet_[foot].position_.x(), fp(0))); EXPECT(near(n.feet_[foot].position_.y(), fp(1))); }
  w.model.updateState(n); }
 EXPECT(landed > 1); return bad; }""",
 "a walk that turns: a foot lands after a support whose orientation differs from zero", "the foot does not land where the controller has planned", inc=["humoto", "rigid_body", "walking", "wpg04"])

seed("B14", "C12", [("core/include/humoto/configurable_optimization_problem.h", "humoto::OptimizationProblem::reset(task_class_names_.size());", "if (getNumberOfLevels() != task_class_names_.size()) { humoto::OptimizationProblem::reset(task_class_names_.size()); }")],
 """int main() { typedef humoto::config::msgpack::Writer W; typedef humoto::config::msgpack::Reader R; humoto::ConfigurableOptimizationProblem a, c; a.reset(2);
 for (int l = 0; l < 2; ++l) { boost::shared_ptr<humoto::TaskBase> t(new humoto::TaskZeroVariables(0.5 + l)); t->setDescription(l ? "second" : "first"); a.pushTask(t, l, "TaskZeroVariables"); }
 a.writeConfig<W>("a.msg"); c.readConfig<R>("a.msg"); EXPECT(c[0].tasks_.size() == 1); c.readConfig<R>("a.msg"); EXPECT(c[0].tasks_.size() == 1); EXPECT(c[1].tasks_.size() == 1); return bad; }""",
 "a hierarchy that is read again from a description with the same number of levels", "tasks of the earlier description remain in the hierarchy", inc=["config_msgpack", "humoto"])

seed("B15", "C10", [("bridges/config_msgpack/interface/config_msgpack/writer.h", "packer_->pack_int64(entry);", "packer_->pack_uint8(entry);")],
 """struct E : humoto::walking::StanceFSMParameters { };
 #define WR(x) x.writeConfig<humoto::config::msgpack::Writer>("e.msg")
 int main() { for (int v : {0, 1, 3, 255, 256, 1000, -1}) { { std::ofstream o("e.msg"); } { humoto::config::msgpack::Writer w("e.msg"); w.initRoot(); w.descend("S", 1); w.writeEnum(v, std::string("e")); w.ascend(); w.flush(); } humoto::config::msgpack::Reader r("e.msg"); r.descend("S"); int x = 7; r.readEnum(x, std::string("e"), true); r.ascend(); EXPECT(x == v); } return bad; }""",
 "an enumeration value outside of 0..255", "the enumeration reads back as another value", inc=["config_msgpack", "humoto", "rigid_body", "walking"])

seed("B16", "C13", [("core/include/humoto/logger.h", "num_msg = message_queue_.size();", "num_msg = std::min<std::size_t>(message_queue_.size(), 4096);")],
 """#include <sstream>
 int main() { std::ostringstream o; { humoto::Logger l(o, 200); boost::this_thread::sleep_for(boost::chrono::milliseconds(50)); for (int i = 0; i < 20000; ++i) l.log("i", i); } std::size_t n = 0; for (char c : o.str()) if (c == '\\n') ++n; EXPECT(n == 20000); return bad; }""",
 "a logger that is destroyed while thousands of entries are queued", "entries at the end of the log are lost")

seed("B18", "C19", [("core/include/walking/robot_foot_parameters.h", "feet_.getLeft().ads_position_from_ss_ << 0., -half_feet_dist_default;", "feet_.getLeft().ads_position_from_ss_ << 0., -min_feet_dist_/2.;")],
 """typedef humoto::LeftOrRight LR;
 int main() { { msgpack::sbuffer b; msgpack::packer<msgpack::sbuffer> k(&b); k.pack_map(1); k.pack(std::string("RobotFootParameters")); k.pack_map(6); const char *n[6] = {"max_step_len", "min_feet_dist", "max_feet_dist", "feet_dist_default", "foot_length", "foot_width"}; double v[6] = {0.2, 0.15, 0.4, 0.25, 0.14, 0.06}; for (int i = 0; i < 6; ++i) { k.pack(std::string(n[i])); k.pack(v[i]); } std::ofstream o("f.msg"); o.write(b.data(), b.size()); }
 humoto::walking::RobotFootParameters p; p.readConfig<humoto::config::msgpack::Reader>("f.msg"); etools::Matrix2 R = Eigen::Rotation2Dd(0.7).toRotationMatrix(); etools::Vector2 z(0.3, -0.2);
 for (LR::Type f : {LR::LEFT, LR::RIGHT}) { etools::Vector2 q = p.getADSPositionFromFoot(f, R, p.getFootPositionFromADS(f, R, z)); EXPECT((q - z).norm() < 1e-9); } return bad; }""",
 "a robot whose default distance between the feet differs from the minimal one", "the centre of a double support computed from the left foot is not in the middle", inc=["config_msgpack", "humoto", "rigid_body", "walking"])

seed("B21", "C22", [("modules/wpg04/include/wpg04/task_footstepbounds.h", "ub.segment(i*2+1, 1) = lb.segment(i*2+1, 1);", "lb.segment(i*2+1, 1) = ub.segment(i*2+1, 1);")],
 WALK + """int main() { Walk w; w.wp.num_steps_ = 4; w.wp.first_stance_duration_ms_ = 200; w.wp.ss_duration_ms_ = 200; if (w.start(12, 100, 100, 100) != humoto::ControlProblemStatus::OK) return 1;
 humoto::OptimizationProblem op; op.reset(1); w4::TaskFootstepBounds *t = new w4::TaskFootstepBounds(true); op.pushTask(boost::shared_ptr<humoto::TaskBase>(t), 0); humoto::Solution s; op.form(s, w.model, w.mpc); int left = 0;
 for (std::size_t i = 0; i < w.mpc.preview_horizon_.getNumberOfVariableSteps(); ++i) { const w4::WalkState &x = w.mpc.preview_horizon_.getWalkState(w.mpc.preview_horizon_.variable_steps_indices_[i]); double l = t->getLowerBounds()(2*i+1), u = t->getUpperBounds()(2*i+1); EXPECT(l == u); if (x.type_ == ST::LSS && i > 0) { ++left; EXPECT(near(l, 0.19)); } if (x.type_ == ST::RSS && i > 0) EXPECT(near(l, -0.19)); } EXPECT(left > 0); return bad; }""",
 "fixed footsteps and a step of the left foot", "the left foot steps at the maximal distance while the right one steps at the minimal one", inc=["humoto", "rigid_body", "walking", "wpg04"])

seed("B22", "C07", [("core/include/humoto/control_problem.h", "Ou.block(i*Ny, i*Nu, Ny, Nu) = E;", "Ou.block(i*Ny, i*Nu, Ny, Nu) += E * (i + 1 == N ? 0. : 1.);")],
 """typedef Eigen::MatrixXd MX; struct M : humoto::MPC { void log(humoto::Logger&,const humoto::LogEntryName&,const std::string&) const {} static void go() { int N = 3; MX A(2,2), B(2,1), D(1,2), E(1,1), S, U, Ox, Ou; A << 1, .1, 0, 1; B << .005, .1; D << 1, 2; E << 3; condenseTimeInvariant(S, U, N, A, B); condenseOutput(Ox, Ou, D, E, S, U);
 Eigen::VectorXd x(2), u(N); x << .3, -.2; u << 1, -2, .5; Eigen::VectorXd y = Ox * x + Ou * u; for (int i = 0; i < N; ++i) { EXPECT(near(y(i), (D * x + E * u(i))(0))); x = A * x + B * u(i); } } };
 int main() { M::go(); return bad; }""",
 "the last interval of a horizon whose output depends on the control directly", "the predicted output of the last interval ignores its control")

seed("B26", "C15", [("core/include/rigid_body/triple_integrator.h", "(3*Ts*Ts - 2*T*Ts)/(2*T) ,", "(3*Ts*Ts - 2*Ts*Ts)/(2*T) ,")],
 """int main() { typedef humoto::rigidbody::TripleIntegrator I; double T = 0.1; etools::Vector3 x(0.3, -0.2, 1.5); double p = 0.42; for (double t : {0.02, 0.05, 0.09, 0.1}) { etools::Vector3 y = I::getAsPos<1>(T, t) * x + I::getBsPos<1>(T, t) * p; double j = (p - x(0) - x(1)*T - x(2)*T*T/2) * 6 / (T*T*T); EXPECT(near(y(0), x(0) + x(1)*t + x(2)*t*t/2 + j*t*t*t/6)); EXPECT(near(y(1), x(1) + x(2)*t + j*t*t/2)); EXPECT(near(y(2), x(2) + j*t)); } return bad; }""",
 "a position controlled integrator evaluated between samples, with a nonzero initial acceleration", "the velocity between the samples is wrong (it is right at the end of the interval)")

seed("B27", "C23", [("modules/pepper_mpc/include/pepper_mpc/two_point_mass_model.h", "D << body_mass, 0., -body_mass * (body_height / humoto::g_gravitational_acceleration);", "D << body_mass, 0., -body_mass * (body_height / 9.81);")],
 """int main() { humoto::pepper_mpc::TwoPointMassModel m; double mb = 16, md = 12, hd = 0.75; etools::Matrix1x3 D = m.getDpd3(hd, mb, md); EXPECT(near(D(0), md/(mb+md))); EXPECT(near(D(2), -md*hd/humoto::g_gravitational_acceleration/(mb+md))); return bad; }""",
 "an accelerated body", "the pressure point is inconsistent with the gravity that the rest of the library uses", inc=["humoto", "rigid_body", "pepper_mpc"])

seed("B28", "C02", [("core/include/eigentools/eigentools.h", "A_num_col).block(i, i, A_num_col-i, 1).noalias() += A.transpose().bottomRows(A_num_col-i) * A.col(i);", "A_num_col).block(i, i, A_num_col-i, 1).noalias() = A.transpose().bottomRows(A_num_col-i) * A.col(i);")],
 TASKS + """struct EqAS : humoto::TaskASB { MX A_; VX b_; int o_; EqAS(const MX&A,const VX&b,int o):humoto::TaskASB("EqAS"),A_(A),b_(b),o_(o){} void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&){ getA()=A_; getB()=b_; setOffset(o_); } };
 int main() { humoto::OptimizationProblem op; op.reset(1); op.pushTask(sp(new EqAS(m12(1,1), v1(1), 0)), 0); op.pushTask(sp(new EqAS(m12(1,2), v1(2), 1)), 0); Model m; Problem p(3); humoto::Solution s; op.form(s, m, p); MX H; VX g; op[0].getObjective(H, g); EXPECT(near(H(0,0), 1)); EXPECT(near(H(1,1), 2)); EXPECT(near(H(2,1), 2)); EXPECT(near(H(2,2), 4)); return bad; }""",
 "two tasks on the objective level, one of which acts on a slice of the variables that overlaps another task", "the earlier task is dropped from the objective", inc=CORE)

seed("B29", "C09", [("core/include/eigentools/eigentools.h", "matrix.block(i, i+1, 1, num_el-i-1) = matrix.transpose().block(i, i+1, 1, num_el-i-1);", "matrix.block(i, i+1, 1, num_el-i-1) = matrix.transpose().block(i, i+1, 1, num_el-i-1); if (num_el > 8) matrix(0, num_el-1) = matrix(num_el-1, 1);")],
 """int main() { for (int n : {2, 5, 12}) { Eigen::MatrixXd m = Eigen::MatrixXd::Random(n, n), x = m; etools::convertLLTtoSymmetric(x); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) EXPECT(x(i,j) == m(i,j) && x(j,i) == m(i,j)); } return bad; }""",
 "a matrix larger than 8x8", "the matrix is not symmetric")

seed("B30", "C01", [("core/include/humoto/constraints_mixins.h", "ub.segment(location.offset_, location.length_).setConstant(humoto::g_infinity);", "ub.tail(location.length_).setConstant(humoto::g_infinity);")],
 TASKS + """struct LoA : humoto::TaskAL { MX A_; VX l_; LoA(const MX&A,const VX&l):humoto::TaskAL("LoA"),A_(A),l_(l){} void form(const humoto::SolutionStructure&,const humoto::Model&,const humoto::ControlProblem&){ getA()=A_; getLowerBounds()=l_; } };
 int main() { humoto::OptimizationProblem op; op.reset(1); op.pushTask(sp(new InA(m12(1,2), v1(-1), v1(1))), 0); op.pushTask(sp(new LoA(m12(1,1), v1(0))), 0); Model m; Problem p; humoto::Solution s; op.form(s, m, p); humoto::constraints::ContainerALU c; c.reset(2,2); op[0].getGeneralConstraints(c, s); EXPECT(c.getUpperBounds()(0) == humoto::g_infinity); EXPECT(c.getUpperBounds()(1) == 1); EXPECT(c.getLowerBounds()(0) == 0); return bad; }""",
 "a task with lower bounds which is not the last one on its level", "upper bounds of another task are lost", inc=CORE)

seed("B31", "C31", [("core/include/humoto/solver.h", """                parameters_ = parameters;

                checkInputs(hierarchy);
                initialize(hierarchy, solution);""", """                checkInputs(hierarchy);
                parameters_ = parameters;

                initialize(hierarchy, solution);""")],
 TASKS + """struct Par : humoto::SolverParametersBase { Par() { setDefaults(); } void finalize() {} const std::string & getConfigSectionID() const { static std::string s("Par"); return s; } };
struct S : humoto::QPSolverMixin<humoto::Solver<Par> > { int n = 0; void initialize(const humoto::OptimizationProblem &, const humoto::SolutionStructure &) {} void solveHierarchy(humoto::Solution &s, const humoto::OptimizationProblem &) { ++n; s.x_.setZero(2); s.return_status_ = humoto::SolverStatus::OK; } };
int main() { humoto::OptimizationProblem op; op.reset(1); op.pushTask(sp(new EqA(m12(1,1), v1(1))), 0); Model m; Problem p; humoto::Solution s; op.form(s, m, p); S k; Par on, off; off.solve_two_levels_as_qp_ = false;
 bool thrown = false; try { k.solve(s, op, off); } catch (const std::exception &) { thrown = true; } EXPECT(thrown); EXPECT(k.n == 0); thrown = false; try { k.solve(s, op, on); } catch (const std::exception &) { thrown = true; } EXPECT(!thrown); EXPECT(k.n == 1); return bad; }""",
 "a call with parameters that admit other hierarchies than the previous parameters of the solver", "the hierarchy is checked against the parameters of the previous call", inc=CORE)

seed("B32", "C16", [("core/include/walking/stance_finite_state_machine.h", "if(stance_fsm.current_time_ms_ + duration_ms <= stance_fsm.current_stance_.duration_ms_)", "if(stance_fsm.current_time_ms_ + duration_ms < stance_fsm.current_stance_.duration_ms_)")],
 """int main() { using namespace humoto::walking; StanceFSMParameters p; p.num_steps_ = 0; StanceFiniteStateMachine f(p); f.shiftTime(100); std::size_t d = f.current_stance_.duration_ms_ - 100;
 std::vector<Stance> s = f.previewStances(d - 1); EXPECT(s.size() == 1 && s[0].duration_ms_ == d - 1); s = f.previewStances(d); EXPECT(s.size() == 1 && s[0].duration_ms_ == d); return bad; }""",
 "a preview that ends exactly at the end of the final double support", "the preview lacks its last stance")

seed("B33", "C17", [("core/include/walking/foot_trajectory.h", """                                       b.rpy_(humoto::AngleIndex::YAW),
                                       b.angular_velocity_(humoto::AngleIndex::YAW));""", """                                       b.rpy_(humoto::AngleIndex::YAW),
                                       a.angular_velocity_(humoto::AngleIndex::YAW));""")],
 """int main() { using namespace humoto; walking::Simple3DFootTrajectory t; rigidbody::RigidBodyState a, b, s; a.setDefaults(); b.setDefaults(); b.rpy_(2) = 0.3; a.angular_velocity_(2) = 0.2; b.angular_velocity_(2) = 0.7; t.initialize(a, b, 0.1);
 t.eval(s, 1.0); EXPECT(near(s.rpy_(2), 0.3)); EXPECT(near(s.angular_velocity_(2), 0.7)); t.eval(s, 0.0); EXPECT(near(s.angular_velocity_(2), 0.2)); return bad; }""",
 "a step between states with different rates of turn", "the foot lands with the rate of turn with which it took off")

seed("B35", "C06", [("core/include/humoto/solution.h", "getData(guess_part) = old_solution.getData(old_part);", "getData(guess_part) = old_solution.getData(guess_part);")],
 """int main() { humoto::SolutionStructure o, n; o.addSolutionPart("a", 2); o.addSolutionPart("b", 1); o.addSolutionPart("c", 2); n.addSolutionPart("b", 1); n.addSolutionPart("c", 2); humoto::Solution x, y; x.initialize(o, 0.0); x.x_ << 1, 2, 3, 4, 5;
 y.initialize(n, x); EXPECT(y.x_(0) == 3); EXPECT(y.x_(1) == 4); EXPECT(y.x_(2) == 5); return bad; }""",
 "a guess for a structure in which a part lies elsewhere than in the old solution", "the guess takes values of other parts")

seed("B36", "C11", [("bridges/config_msgpack/interface/config_msgpack/reader.h", "(static_cast<int>(getCurrentNode()->via.array.size) == t_rows)", "(static_cast<int>(getCurrentNode()->via.array.size) >= t_rows)")],
 """int main() { { humoto::config::msgpack::Writer w("v.msg"); w.initRoot(); w.descend("S", 2); w.writeCompound(Eigen::VectorXd(Eigen::VectorXd::Constant(4, 1.)), "v"); w.writeCompound(Eigen::Vector3d(Eigen::Vector3d::Constant(2.)), "u"); w.ascend(); w.flush(); }
 humoto::config::msgpack::Reader r("v.msg"); r.descend("S"); Eigen::Vector3d v; bool thrown = false; try { r.readCompound(v, "v", true); } catch (const std::exception &) { thrown = true; } EXPECT(thrown); r.readCompound(v, "u", true); EXPECT(v(2) == 2); return bad; }""",
 "an entry with more elements than the vector has", "an entry of a wrong size is accepted and truncated", inc=["config_msgpack", "humoto"])

seed("B37", "C08", [("core/include/eigentools/blockmatrix_base.h", """                EIGENTOOLS_ASSERT(  (MatrixBlockSizeType::DYNAMIC != t_block_cols_num) || (block_cols_num > 0),
                                    "Block dimension must be strictly positive.");
                initializeBlockSize(block_rows_num, block_cols_num);
                finalize();""", """                EIGENTOOLS_ASSERT(  (MatrixBlockSizeType::DYNAMIC != t_block_cols_num) || (block_cols_num > 0),
                                    "Block dimension must be strictly positive.");
                initializeBlockSize(block_rows_num, block_cols_num);
                if (num_blocks_vert_ * block_rows_num_ < matrix_.rows()) { finalize(); }""")],
 """int main() { typedef etools::GenericBlockMatrix<etools::MatrixBlockSizeType::DYNAMIC, etools::MatrixBlockSizeType::DYNAMIC> M; Eigen::MatrixXd d = Eigen::MatrixXd::Random(12, 12);
 for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int c = 1; c <= 3; ++c) for (int e = 1; e <= 3; ++e) { M m(d, a, b); m.setBlockSize(c, e); EXPECT(m.column(0).rows() == 12); EXPECT(m.row(0).cols() == 12); EXPECT(m.row(0).rows() == c); } return bad; }""",
 "a block matrix whose block size is changed to blocks that are not smaller vertically", "block rows and columns are cut or too long", inc=["humoto"])

seed("B39", "C14", [("core/include/rigid_body/rotary_state.h", "if (std::abs(vel) < tolerance)", "if (std::abs(vel) < std::sqrt(tolerance))")],
 """int main() { using namespace humoto::rigidbody; etools::Matrix3 R = integrateAngularVelocityRodrigues(etools::Matrix3::Identity(), etools::Vector3(0, 0, 5e-7), 1e4); EXPECT(std::fabs(R(1, 0) - std::sin(5e-3)) < 1e-9); return bad; }""",
 "a slow rotation integrated over a long time", "slow rotations are ignored")

seed("B40", "C24", [("modules/pepper_mpc/include/pepper_mpc/preview_horizon.h", """                    double          theta = model.getBaseOrientation();
                    intervals_.resize(mpc_params.preview_horizon_length_);""", """                    double          theta = model.getBaseOrientation();
                    if (intervals_.size() < mpc_params.preview_horizon_length_) { intervals_.resize(mpc_params.preview_horizon_length_); }""")],
 PEPPER + """int main() { pm::Model model; model.updateState(state()); pm::PreviewHorizon h; std::deque<pm::MotionParameters> q; q.push_back(motion(.1,pm::MotionParameters::UNLIMITED_DURATION)); EXPECT(h.form(pm::MPCParameters(8,100,100), model, q)); EXPECT(h.getPreviewHorizonLength() == 8);
 EXPECT(h.form(pm::MPCParameters(5,100,100), model, q)); EXPECT(h.getPreviewHorizonLength() == 5); return bad; }""",
 "a preview horizon that is formed again with a smaller number of intervals", "intervals of the earlier horizon remain", inc=["humoto", "rigid_body", "pepper_mpc"])

seed("B41", "C13", [("core/include/humoto/logger.h", """            void initialize(std::ostream & output_stream,
                            const std::size_t thread_sleep_ms = default_thread_sleep_ms_)
            {
                interrupt();

                LoggerBase::initialize(output_stream);""", """            void initialize(std::ostream & output_stream,
                            const std::size_t thread_sleep_ms = default_thread_sleep_ms_)
            {
                LoggerBase::initialize(output_stream);
                interrupt();
""")],
 """#include <sstream>
 int main() { std::ostringstream a, b; { humoto::Logger l(a, 300); boost::this_thread::sleep_for(boost::chrono::milliseconds(50)); for (int i = 0; i < 10; ++i) l.log("i", i); l.initialize(b, 2); l.log("j", 1); } EXPECT(a.str().find("i") != std::string::npos); EXPECT(b.str().find("i") == std::string::npos); EXPECT(b.str().find("j") != std::string::npos); return bad; }""",
 "a logger that is switched to another stream while entries are queued", "entries logged before the switch appear in the new output")

seed("B42", "C10", [("bridges/config_msgpack/interface/config_msgpack/reader.h", """                            entry.resize(getCurrentNode()->via.array.size);

                            for(std::size_t i = 0; i < entry.size(); ++i)""", """                            if (entry.size() < getCurrentNode()->via.array.size) { entry.resize(getCurrentNode()->via.array.size); }

                            for(std::size_t i = 0; i < getCurrentNode()->via.array.size; ++i)""")],
 """int main() { { humoto::config::msgpack::Writer w("s.msg"); w.initRoot(); w.descend("S", 1); w.writeCompound(std::vector<std::string>(2, "x"), "v"); w.ascend(); w.flush(); }
 humoto::config::msgpack::Reader r("s.msg"); r.descend("S"); std::vector<std::string> v(3, "old"); r.readCompound(v, "v", true); EXPECT(v.size() == 2); EXPECT(v[1] == "x"); return bad; }""",
 "an object that held a longer list before", "elements of the old list remain after reading", inc=["config_msgpack", "humoto"])

seed("B44", "C20", [("modules/wpg04/include/wpg04/preview_horizon.h", "intervals_.resize(preview_horizon_length_);", "if (intervals_.size() < preview_horizon_length_) { intervals_.resize(preview_horizon_length_); }")],
 WALK + """int main() { Walk w; EXPECT(w.start(12, 100, 100, 100) == humoto::ControlProblemStatus::OK); EXPECT(w.mpc.preview_horizon_.intervals_.size() == 12); EXPECT(w.start(8, 100, 100, 100) == humoto::ControlProblemStatus::OK); EXPECT(w.mpc.preview_horizon_.intervals_.size() == 8); return bad; }""",
 "a walking controller that is used again with a shorter preview", "intervals of the earlier horizon remain", inc=["humoto", "rigid_body", "walking", "wpg04"])

RBDL = ["rbdl/rbdl.h", "rbdl/rbdl_utils.h", "rbdl/addons/urdfreader/urdfreader.h"]
IK = """
namespace ik = humoto::pepper_ik; enum { F = ik::ModelFeatures::FIXED_WHEELS | ik::ModelFeatures::ROOT_PLANAR }; typedef ik::GeneralizedCoordinates<F> GC;
struct Robot { ik::Model<F> m; GC s; Robot(double yaw) { m.loadParameters(std::string(REPO) + "/modules/pepper_ik/config/pepper_fixedwheels_roottibia_planar.urdf"); turn(yaw); }
 void turn(double yaw) { s.setRootOrientation(etools::Vector3(0, 0, yaw)); m.updateState(s); } };
"""
seed("B45", "C28", [("bridges/rbdl/interface/rbdl/model.h", """return(rbdl_model_.mFixedBodies[flink_id].mParentTransform
                                * rbdl_model_.X_base[rbdl_model_.mFixedBodies[flink_id].mMovableParent]);""", """return(rbdl_model_.X_base[rbdl_model_.mFixedBodies[flink_id].mMovableParent]
                                * rbdl_model_.mFixedBodies[flink_id].mParentTransform);""")],
 """namespace D = RigidBodyDynamics; int main() { D::Addons::registry()["tree"] = [](D::Model & m, bool) { std::vector<D::SpatialVector> a(1, D::Addons::stubAxis(0,0,1,0,0,0));
 unsigned i = m.AddBody(0, D::SpatialTransform(), D::Joint(a), D::Body(1, etools::Vector3(0,0,0)), "arm"); m.AddBody(i, D::SpatialTransform(etools::Matrix3::Identity(), etools::Vector3(1,0,0)), D::Joint(D::JointTypeFixed), D::Body(1, etools::Vector3(0,0,0)), "hand"); };
 humoto::rbdl::Model m("tree"); Eigen::VectorXd q(1); q << M_PI/2; m.update(q); etools::Vector3 p = m.getTagPosition(m.getLinkTag("hand")); EXPECT(near(p.x(), 0)); EXPECT(near(p.y(), 1)); return bad; }""",
 "a link behind a fixed joint with an offset, in a rotated configuration", "the pose of such a link is wrong", inc=["config_msgpack", "humoto", "rbdl"], stubs=RBDL)

seed("B46", "C30", [("modules/pepper_ik/include/pepper_ik/whole_body_controller.h", "getTagVelocityInLocal(i->first, rbdl::SpatialType::ROTATION),  ", "getTagVelocityInGlobal(model, i->first, getTagVelocityInLocal(i->first, rbdl::SpatialType::COMPLETE), rbdl::SpatialType::ROTATION),  ")],
 IK.replace("struct Robot", "struct Robot", 1) + """int main() { Robot r(1); ik::WBCParameters p; p.control_interval_ = 0.01; ik::WholeBodyController<F> c(p); std::map<std::string, etools::Vector6> v; v["Tibia"] << 0, 0, 0, 0.5, 0, 0; c.setTagsVelocity(v); c.computeTagsDesiredPoseInGlobal(r.m);
 etools::Vector6 e = c.getTagPoseErrorInGlobal(r.m, "Tibia"); etools::Matrix3 R = r.m.getTagOrientation(r.m.getLinkTag("Tibia")); etools::Vector3 w = R * etools::Vector3(0.5, 0, 0) * 0.01; std::cout << e.transpose() << " " << w.transpose() << std::endl; EXPECT((e.head(3) - w).norm() < 1e-4); return bad; }""",
 "a link that is not aligned with the world", "the link is turned about a wrong axis", inc=["config_msgpack", "humoto", "pepper_ik"], stubs=RBDL)

seed("B47", "C29", [("modules/pepper_ik/include/pepper_ik/model.h", "command.wheel_velocities_ = root_motion_to_wheels_*base_orientation.transpose()*command.base_velocities_;", "command.wheel_velocities_ = root_motion_to_wheels_*saved_state_.base_orientation_.transpose()*command.base_velocities_;")],
 IK + """int main() { Robot a(0), b(0.3); a.m.saveCurrentState(); b.m.saveCurrentState(); etools::Vector3 p; GC s = a.s; s.getRootPosition(p); p.x() += 0.01; s.setRootPosition(p); s.setRootOrientation(etools::Vector3(0, 0, 0.3)); a.m.updateState(s); ik::RobotCommand x, y; a.m.getRobotCommand(x, 1);
 s.setRootOrientation(etools::Vector3(0, 0, 0.6)); b.m.updateState(s); b.m.getRobotCommand(y, 1); EXPECT((x.base_velocities_ - y.base_velocities_).norm() < 1e-9); etools::Matrix3 T = ik::ModelDescription<F>::getRootMotionToWheelsTransform();
 EXPECT((x.wheel_velocities_ - T * a.m.getBaseOrientation().transpose() * x.base_velocities_).norm() < 1e-9); EXPECT((y.wheel_velocities_ - T * b.m.getBaseOrientation().transpose() * y.base_velocities_).norm() < 1e-9); return bad; }""",
 "a base that translates and turns in the same interval", "wheel velocities refer to the orientation at the beginning of the interval", inc=["config_msgpack", "humoto", "pepper_ik"], stubs=RBDL)

seed("B48", "C27", [("bridges/qpOASES/interface/qpoases/solver.h", """                            case ConstraintActivationType::UPPER_BOUND:
                                qpoases_active_set_guess_bounds_.setupBound(var_index, qpOASES::ST_UPPER);""", """                            case ConstraintActivationType::UPPER_BOUND:
                                qpoases_active_set_guess_bounds_.setupBound(i, qpOASES::ST_UPPER);""")],
 TASKS + """int main() { humoto::OptimizationProblem op; op.reset(2); op.pushTask(sp(new LuI({1}, v1(-1), v1(1))), 0); op.pushTask(sp(new EqI({0, 1}, v2(0, 3))), 1); Model m; Problem p; humoto::Solution s; op.form(s, m, p);
 fakeqp::script().answer = [](const fakeqp::Call & c) { fakeqp::Answer a; a.status = 0; a.iterations = 1; a.x = v2(0, 1); a.wsb = {0, 1}; return a; }; humoto::qpoases::Solver q; humoto::ActiveSet as; humoto::ActiveSet g; op.initializeActiveSet(g); g.set(1, humoto::ConstraintActivationType::EQUALITY); g[0][0] = humoto::ConstraintActivationType::UPPER_BOUND;
 q.solve(s, as, op, g); const std::vector<int> & b = fakeqp::script().calls.back().as_bounds; EXPECT(b.size() == 2 && b[0] == qpOASES::ST_INACTIVE && b[1] == qpOASES::ST_UPPER); return bad; }""",
 "a guess of the active set for bounds on some of the variables", "the guess is given for another variable", inc=["config_msgpack", "humoto", "qpoases"], stubs=["qpOASES.hpp", "recorder.h"])

seed("B49", "C32", [("bridges/config_yaml/interface/config_yaml/reader.h", """                                                        Eigen::RowMajor> >  map(v.data(),
                                                                                num_rows,""", """                                                        Eigen::ColMajor> >  map(v.data(),
                                                                                num_rows,""")],
 """int main() { { std::ofstream f("c.yaml"); f << "m:\\n  rows: 2\\n  cols: 3\\n  data: [1, 2, 3, 4, 5, 6]\\n"; } humoto::config::yaml::Reader r("c.yaml"); Eigen::MatrixXd m; r.readCompound(m, "m"); EXPECT(m.rows() == 2 && m.cols() == 3); EXPECT(m(0,1) == 2 && m(1,0) == 4); return bad; }""",
 "a matrix with several rows and columns that is not symmetric", "elements are placed column by column although they are written row by row", inc=["config_yaml", "humoto"], stubs=["yaml03/yaml-cpp/yaml.h"], libs="-lyaml-cpp")
