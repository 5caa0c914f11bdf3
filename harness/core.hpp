// Core of the property-based testing harness: cases, spaces, exact reference integrator.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace vh
{
// The harness has its own plain data types, so that the library under test and the frozen reference copy can both be
// driven through the same adapter (spaces.inc) without their headers meeting in one translation unit.
struct State
{
  double x, y, theta, kappa, d;
};
struct State_With_Covariance
{
  State state;
  double Sigma[16] = { 0.0 };
  double Lambda[16] = { 0.0 };
  double covariance[16] = { 0.0 };
};
struct Control
{
  double delta_s, kappa, sigma;
};
struct Motion_Noise
{
  double alpha1, alpha2, alpha3, alpha4;
};
struct Measurement_Noise
{
  double std_x, std_y, std_theta;
};
struct Controller
{
  double k1, k2, k3;
};
typedef std::vector<Control> Controls;
typedef std::vector<State> Path;

const double kPi = 3.14159265358979323846264338327950288;

// ---------------------------------------------------------------- random numbers
// One stream per (seed, property, case index): a run is a pure function of the code and the seed.
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed)
  {
    next();
    next();
  }
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  double u()
  {
    return (next() >> 11) * (1.0 / 9007199254740992.0);
  }
  double range(double a, double b)
  {
    return a + (b - a) * u();
  }
  double logrange(double a, double b)
  {
    return std::exp(range(std::log(a), std::log(b)));
  }
  int below(int n)
  {
    return (int)(next() % (uint64_t)n);
  }
  bool coin(double p = 0.5)
  {
    return u() < p;
  }
  double sign()
  {
    return coin() ? 1.0 : -1.0;
  }
};

// ---------------------------------------------------------------- the steering spaces
enum SpaceId
{
  CC_D_F,
  CC_D_B,
  CC00_D_F,
  CC00_D_B,
  CC0PM_D_F,
  CC0PM_D_B,
  CCPM0_D_F,
  CCPM0_D_B,
  CCPMPM_D_F,
  CCPMPM_D_B,
  DUBINS_F,
  DUBINS_B,
  CC00_RS,
  HC_RS,
  HC00_RS,
  HC0PM_RS,
  HCPM0_RS,
  HCPMPM_RS,
  RS,
  N_SPACES
};

enum CurvMode
{
  CURV_NONE,  // G1 spaces: curvature of the states is ignored
  CURV_ZERO,  // superscript 0
  CURV_PM,    // superscript +-
  CURV_FREE   // arbitrary curvature is respected
};
enum Continuity
{
  G1,
  HC,
  CC
};

struct SpaceInfo
{
  const char *name;
  CurvMode start, goal;
  Continuity cont;
  int dir;  // +1 forwards only, -1 backwards only, 0 both
};
extern const SpaceInfo kInfo[N_SPACES];

struct Space
{
  virtual ~Space()
  {
  }
  virtual double distance(const State &, const State &) const = 0;
  virtual Controls controls(const State &, const State &) const = 0;
  virtual Path path(const State &, const State &) const = 0;
  virtual std::vector<State_With_Covariance> path_cov(const State_With_Covariance &, const State &) const = 0;
  virtual Path integrate(const State &, const Controls &) const = 0;
  virtual std::vector<State_With_Covariance> integrate_cov(const State_With_Covariance &, const Controls &) const = 0;
  virtual State interpolate(const State &, const Controls &, double) const = 0;
  virtual void set_filter(const Motion_Noise &, const Measurement_Noise &, const Controller &) = 0;
};
std::unique_ptr<Space> make_space(int id, double kappa, double sigma, double disc);
std::unique_ptr<Space> make_space_default(int id, double kappa, double sigma);  // null for backward functions
std::unique_ptr<Space> make_space_by_base(int id, double kappa, double sigma, double disc);
// the frozen reference library (see ref/README): used only as a source of witnesses
std::unique_ptr<Space> make_ref_space(int id, double kappa, double sigma, double disc);

inline bool is_dubins_type(int id)
{
  return kInfo[id].dir != 0;
}
inline bool is_g1(int id)
{
  return kInfo[id].cont == G1;
}

// ---------------------------------------------------------------- exact reference integration
struct Pose
{
  double x, y, th, k;
};

inline double wrap(double a)
{
  return std::remainder(a, 2 * kPi);
}
inline double angdiff(double a, double b)
{
  return std::fabs(std::remainder(a - b, 2 * kPi));
}
inline double sgn1(double x)
{
  return x < 0 ? -1.0 : 1.0;
}

// State after driving |len| along a segment that starts at curvature k with sharpness sig (derivative of curvature
// w.r.t. travelled arc length), driving direction d. Independent of the library: Gauss-Legendre quadrature of the ODE
//   x' = d cos(th), y' = d sin(th), th' = d k, k' = sig.
Pose ref_step(const Pose &p, double d, double sig, double len);
Pose ref_end(const State &start, const Controls &c);
// pose at arc length s (clamped) along the controls; kseg receives the segment index that contains it
Pose ref_at(const State &start, const Controls &c, double s);
inline double total_length(const Controls &c)
{
  double l = 0;
  for (auto &u : c)
    l += std::fabs(u.delta_s);
  return l;
}

inline State mk_state(double x, double y, double th, double k, double d = 0)
{
  State s;
  s.x = x;
  s.y = y;
  s.theta = th;
  s.kappa = k;
  s.d = d;
  return s;
}

// ---------------------------------------------------------------- cases
enum Field
{
  F_KAPPA,
  F_SIGMA,
  F_DISC,
  F_SX,
  F_SY,
  F_ST,
  F_SK,
  F_SD,
  F_GX,
  F_GY,
  F_GT,
  F_GK,
  F_GD,
  F_E0,  // extras, meaning depends on the property
  N_FIELDS = F_E0 + 48
};
struct Case
{
  int space = 0;
  int cls = 0;  // generator class (for the distribution report only)
  int nx = 0;   // extras in use
  double v[N_FIELDS] = { 0 };
  double &x(int i)
  {
    if (i + 1 > nx)
      nx = i + 1;
    return v[F_E0 + i];
  }
  double x(int i) const
  {
    return v[F_E0 + i];
  }
  State start() const
  {
    return mk_state(v[F_SX], v[F_SY], v[F_ST], v[F_SK], v[F_SD]);
  }
  State goal() const
  {
    return mk_state(v[F_GX], v[F_GY], v[F_GT], v[F_GK], v[F_GD]);
  }
  void set_start(const State &s)
  {
    v[F_SX] = s.x, v[F_SY] = s.y, v[F_ST] = s.theta, v[F_SK] = s.kappa, v[F_SD] = s.d;
  }
  void set_goal(const State &s)
  {
    v[F_GX] = s.x, v[F_GY] = s.y, v[F_GT] = s.theta, v[F_GK] = s.kappa, v[F_GD] = s.d;
  }
  double kappa() const
  {
    return v[F_KAPPA];
  }
  double sigma() const
  {
    return v[F_SIGMA];
  }
  double disc() const
  {
    return v[F_DISC];
  }
};

// ---------------------------------------------------------------- properties
struct Outcome
{
  bool ok = true;
  bool nontrivial = false;
  std::string msg;
  std::vector<std::string> labels;                     // distribution report
  std::vector<std::pair<const char *, double>> stats;  // error / tolerance ratios, maxima go to the evidence
  std::string known;                                   // key of a known finding that this case exhibits
  void label(const std::string &s)
  {
    labels.push_back(s);
  }
  // records |err|/tol under name and fails when it exceeds 1 (or is not a number)
  bool within(const char *name, double err, double tol, const char *fmt, ...) __attribute__((format(printf, 5, 6)));
  bool fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  bool expect(bool c, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
};

struct Property
{
  const char *id;
  const char *rule;  // how cases are made and what makes one non-trivial
  std::function<void(Rng &, Case &)> gen;
  std::function<void(const Case &, Outcome &)> eval;
  // is the (possibly shrunk) case inside the domain the property quantifies over?
  std::function<bool(const Case &)> valid;
  long quick_cases, thorough_cases;
  // how often a failure is tried again; more than 3: the outcome depends on the schedule, and one wrong answer is enough
  int repeats = 3;
};
std::vector<Property> &registry();
struct Registrar
{
  explicit Registrar(const Property &p)
  {
    registry().push_back(p);
  }
};

// generators (gen.cpp)
void gen_params(Rng &r, Case &c);
void gen_states(Rng &r, Case &c);
bool domain_ok(const Case &c);
const char *class_name(int cls);
// random controls that make up a feasible path of the given space, starting with the start curvature of the case
Controls gen_word(Rng &r, int space, double kappa, double sigma, double k0);
}  // namespace vh
