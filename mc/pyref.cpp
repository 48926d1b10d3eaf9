// C18: Python module with what the explorer mc/pybind.py needs from the C++ side: contact sets, the
// members of the library's structures read directly, and every function of the interface called
// directly in C++ with the same values. Values cross as plain Python numbers, without eigenpy.
#include <boost/python.hpp>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>

namespace py = boost::python;
namespace bct = bezier_com_traj;
namespace cd = centroidal_dynamics;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;

namespace {
std::vector<double> numbers(const py::object& o) {
  std::vector<double> r;
  for (py::ssize_t i = 0, n = py::len(o); i < n; ++i) r.push_back(py::extract<double>(o[i]));
  return r;
}
Vec vec(const py::object& o) {
  std::vector<double> v = numbers(o);
  return Eigen::Map<Vec>(v.data(), v.size());
}
Mat mat(const py::object& o, int cols) {  // list of rows
  Mat m(py::len(o), cols);
  for (int i = 0; i < m.rows(); ++i) {
    std::vector<double> r = numbers(o[i]);
    for (int j = 0; j < cols; ++j) m(i, j) = r[j];
  }
  return m;
}
template <class D>
void put(py::list& l, const Eigen::MatrixBase<D>& m) {
  l.append((int)m.rows());
  l.append((int)m.cols());
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) l.append((double)m(i, j));
}

void setFeet(cd::Equilibrium* e, const py::object& feet, double mu, bool cone) {
  const double sx[4] = {1, 1, -1, -1}, sy[4] = {1, -1, -1, 1};
  int n = (int)py::len(feet);
  cd::MatrixX3 P(4 * n, 3), N(4 * n, 3);
  for (int i = 0; i < n; ++i) {
    std::vector<double> f = numbers(feet[i]);
    for (int k = 0; k < 4; ++k) {
      P.row(4 * i + k) << f[0] + .11 * sx[k], f[1] + .07 * sy[k], f[2];
      N.row(4 * i + k) << 0, 0, 1;
    }
  }
  e->setNewContacts(P, N, mu, cone ? cd::EQUILIBRIUM_ALGORITHM_PP : cd::EQUILIBRIUM_ALGORITHM_LP);
}
cd::Equilibrium* contacts(const py::object& feet, double mass, double mu, bool cone) {
  cd::Equilibrium* e = new cd::Equilibrium("mc", mass, 4, cd::SOLVER_LP_QPOASES, true, 0, false);
  setFeet(e, feet, mu, cone);
  return e;
}

void peekEq(py::list& l, const cd::Equilibrium* e) {
  if (!e) { l.append("none"); return; }
  l.append(e->m_mass);
  put(l, e->m_G_centr);
}
py::list peekContact(const bct::ContactData& c) {
  py::list l;
  peekEq(l, c.contactPhase_);
  // the matrices of limits that are not given have no meaning
  put(l, c.kin_), put(l, c.ang_);
  if (c.kin_.size()) put(l, c.Kin_);
  if (c.ang_.size()) put(l, c.Ang_);
  return l;
}
py::list peekConstraints(const bct::Constraints& c) {
  py::list l;
  l.append((int)c.flag_), l.append(c.constraintAcceleration_), l.append(c.maxAcceleration_), l.append(c.reduce_h_);
  return l;
}
py::list peek(const bct::ProblemData& p) {
  py::list l;
  for (const bct::point_t* v : {&p.c0_, &p.dc0_, &p.ddc0_, &p.c1_, &p.dc1_, &p.ddc1_}) put(l, *v);
  l.append(p.useAngularMomentum_);
  l.append((int)p.costFunction_), l.append((int)p.representation_);
  l.extend(peekConstraints(p.constraints_));
  l.append((int)p.contacts_.size());
  for (auto& c : p.contacts_) l.extend(peekContact(c));
  return l;
}
py::list peekPhase(const cd::Equilibrium* e) {
  py::list l;
  peekEq(l, e);
  return l;
}

void fill(const py::dict& d, bct::ProblemData& p) {
  auto v3 = [&](const char* k, bct::point_t& v) { v = vec(d[k]); };
  v3("c0_", p.c0_), v3("dc0_", p.dc0_), v3("ddc0_", p.ddc0_), v3("c1_", p.c1_), v3("dc1_", p.dc1_), v3("ddc1_", p.ddc1_);
  p.useAngularMomentum_ = py::extract<bool>(d["useAngularMomentum_"]);
  p.costFunction_ = (bct::CostFunction)(int)py::extract<int>(d["costFunction_"]);
  p.representation_ = (bct::GIWCRepresentation)(int)py::extract<int>(d["GIWCrepresentation_"]);
  p.constraints_.flag_ = (bct::ConstraintFlag)(int)py::extract<int>(d["flag_"]);
  p.constraints_.constraintAcceleration_ = py::extract<bool>(d["constrainAcceleration_"]);
  p.constraints_.maxAcceleration_ = py::extract<double>(d["maxAcceleration_"]);
  p.constraints_.reduce_h_ = py::extract<double>(d["reduce_h_"]);
  py::object ph = d["phases"];
  for (int i = 0; i < (int)py::len(ph); ++i) {
    py::object q = ph[i];
    bct::ContactData c(contacts(q["feet"], py::extract<double>(q["mass"]), py::extract<double>(q["mu"]), true));
    if (py::len(q["kin"])) c.Kin_ = mat(q["Kin"], 3), c.kin_ = vec(q["kin"]);
    if (py::len(q["ang"])) c.Ang_ = mat(q["Ang"], 3), c.ang_ = vec(q["ang"]);
    p.contacts_.push_back(c);
  }
}
struct Zero {
  bct::point3_t operator()(double) const { return bct::point3_t::Zero(); }
};
void curve(py::list& l, const bct::bezier_t& c) {
  l.append(c.min()), l.append(c.max()), l.append((int)c.degree());
  for (int i = 0; i <= 4; ++i) {
    double t = c.min() + (c.max() - c.min()) * i / 4;
    put(l, c(t)), put(l, c.derivate(t, 1));
  }
}
py::list result(const bct::ResultDataCOMTraj& r) {
  py::list l;
  l.append(r.success_);
  l.append(r.cost_);
  if (r.x.size()) put(l, r.x);
  else l.append("undefined");
  curve(l, r.c_of_t_);
  curve(l, r.dL_of_t_);
  return l;
}
py::list pairOf(const std::pair<bct::MatrixXX, bct::VectorX>& m) {
  py::list l;
  put(l, m.first), put(l, m.second);
  return l;
}

py::tuple ref(const std::string& fn, const py::dict& d) {
  try {
    bct::ProblemData p;
    fill(d, p);
    double T = py::extract<double>(d["T"]), step = py::extract<double>(d["step"]);
    std::vector<double> Ts = numbers(d["Ts"]);
    if (fn == "zeroStepCapturability") {
      bct::ProblemData q;
      q.c0_ = p.c0_, q.dc0_ = p.dc0_, q.l0_ = vec(d["l0"]);
      q.useAngularMomentum_ = p.useAngularMomentum_;
      q.contacts_.push_back(p.contacts_[0]);
      q.contacts_[0].ang_.resize(0);
      return py::make_tuple("ok", result(bct::solve0step(q, std::vector<double>(1, T), step)));
    }
    if (fn == "computeCOMTraj") {
      int s = py::extract<int>(d["solver"]);
      Vec t = Eigen::Map<Vec>(Ts.data(), Ts.size());
      return py::make_tuple("ok", result(s ? bct::computeCOMTraj(p, t, step, (solvers::SolverType)s) : bct::computeCOMTraj(p, t, step)));
    }
    if (fn == "computeEndEffector") return py::make_tuple("ok", result(bct::solveEndEffector<Zero>(p, Zero(), T, 0)));
    std::vector<bct::point_t> pi = bct::computeConstantWaypoints(p, T);
    if (fn == "computeEndEffectorConstraints") return py::make_tuple("ok", pairOf(bct::computeEndEffectorConstraints(p, T, pi)));
    if (fn == "computeEndEffectorVelocityCost") return py::make_tuple("ok", pairOf(bct::computeVelocityCost(p, T, pi)));
    if (fn == "computeEndEffectorDistanceCost") {
      std::vector<bct::point3_t> path;
      py::object o = d["path"];
      for (int i = 0; i < (int)py::len(o); ++i) path.push_back(vec(o[i]));
      return py::make_tuple("ok", pairOf(bct::computeDistanceCostFunction(path.size(), p, T, path)));
    }
    if (fn == "computeEndEffectorConstantWaypoints") {
      Mat m(3, pi.size());
      for (size_t i = 0; i < pi.size(); ++i) m.col(i) = pi[i];
      py::list l;
      put(l, m);
      return py::make_tuple("ok", l);
    }
  } catch (const py::error_already_set&) {
    throw;
  } catch (const std::exception& e) {
    return py::make_tuple("error", py::list());
  }
  return py::make_tuple("unknown function", py::list());
}
}  // namespace

BOOST_PYTHON_MODULE(mcref) {
  py::class_<cd::Equilibrium, boost::noncopyable>("Equilibrium", py::no_init);
  py::def("contacts", &contacts, py::return_value_policy<py::manage_new_object>());
  py::def("peek", &peek);
  py::def("peekContact", &peekContact);
  py::def("peekConstraints", &peekConstraints);
  py::def("peekEq", &peekPhase);
  py::def("setFeet", &setFeet);
  py::def("ref", &ref);
}
