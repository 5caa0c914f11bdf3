// Building blocks of the library that are part of its public headers: numerics, motion Jacobians, turns on circles.
#include <Eigen/Dense>
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/filter/ekf.hpp"
#include "steering_functions/hc_cc_state_space/configuration.hpp"
#include "steering_functions/hc_cc_state_space/hc_cc_circle.hpp"
#include "steering_functions/hc_cc_state_space/paths.hpp"
#include "steering_functions/utilities/utilities.hpp"
#undef PI
#undef HALF_PI
#undef TWO_PI
#include "util.hpp"
namespace vh
{
namespace lib = ::steering;

// ------------------------------------------------------------------------------------------------ quadrature
static const double kGx[8] = { 0.0950125098376374401853, 0.2816035507792589132305, 0.4580167776572273863424,
                               0.6178762444026437484467, 0.7554044083550030338951, 0.8656312023878317438805,
                               0.9445750230732325760779, 0.9894009349916499325962 };
static const double kGw[8] = { 0.1894506104550684962854, 0.1826034150449235888668, 0.1691565193950025381893,
                               0.1495959888165767320815, 0.1246289712555338720525, 0.0951585116824927848099,
                               0.0622535239386478928628, 0.0271524594117540948518 };
template <class F>
static void quad(double a, double b, int panels, F f)
{
  double h = (b - a) / panels;
  for (int p = 0; p < panels; p++)
    for (int i = 0; i < 16; i++)
    {
      double x = i < 8 ? kGx[i] : -kGx[i - 8];
      f(a + h * (p + 0.5 * (1 + x)), 0.5 * h * kGw[i & 7]);
    }
}

// ------------------------------------------------------------------------------------------------ numerics
enum
{
  NX_KIND,
  NX_A,
  NX_B,
  NX_C,
  NX_D,
  NX_E,
  NX_F,
  NX_END
};
static const char *kNum[] = { "fresnel", "angles", "clothoid", "arc", "line", "frames", "polar", "arrays", "configurations", "controls" };
static void gen_num(Rng &r, Case &c)
{
  c.space = 0;
  gen_params(r, c);
  gen_states(r, c);
  int k = r.below(10);
  c.x(NX_KIND) = k;
  auto odd = [&]() {
    switch (r.below(6))
    {
      case 0: return r.sign() * r.logrange(1e-12, 1e3);
      case 1: return (r.below(17) - 8) * kPi / 4;
      case 2: return (r.below(17) - 8) * kPi + r.sign() * r.logrange(1e-17, 1e-3);
      case 3: return 0.0;
      default: return r.range(-10, 10);
    }
  };
  c.x(NX_A) = odd();
  c.x(NX_B) = odd();
  c.x(NX_C) = r.coin(0.8) ? r.range(-5, 5) : odd();
  c.x(NX_D) = r.coin(0.5) ? r.range(0, 3) : r.logrange(1e-4, 20);
  c.x(NX_E) = r.sign();
  c.x(NX_F) = (double)(r.next() >> 12);
  if (k == 1 && r.coin(0.1))
    c.x(NX_A) = r.sign() * r.logrange(1e3, 1e11);
  if (k == 0)
  {
    // the approximation switches at |s| = sqrt(16/pi)
    double sw = std::sqrt(16 / kPi);
    int m = r.below(4);
    c.x(NX_A) = r.sign() * (m == 0 ? sw + r.sign() * r.logrange(1e-15, 1e-1) : m == 1 ? r.logrange(1e-9, 1) : m == 2 ? r.range(0, 5) : r.logrange(0.5, r.coin(0.7) ? 30 : 1000));
  }
}
static bool valid_num(const Case &c)
{
  if (!valid_query(c) || c.x(NX_KIND) < 0 || c.x(NX_KIND) > 9 || c.x(NX_KIND) != std::floor(c.x(NX_KIND)))
    return false;
  return c.x(NX_D) >= 0 && c.x(NX_D) <= 21 && std::fabs(c.x(NX_E)) == 1 && c.x(NX_F) >= 0 && std::fabs(c.x(NX_A)) < (c.x(NX_KIND) == 1 ? 1.1e11 : 1100) &&
         std::fabs(c.x(NX_B)) < 1100 && std::fabs(c.x(NX_C)) < 1100 && (c.x(NX_KIND) != 0 || std::fabs(c.x(NX_A)) <= 1000);
}
static bool end_ok(const Pose &p, double x, double y, double th, double tol)
{
  return std::hypot(p.x - x, p.y - y) <= tol && angdiff(p.th, th) <= tol;
}
static lib::Configuration conf(const State &s)
{
  return lib::Configuration(s.x, s.y, s.theta, s.kappa);
}
static void eval_num(const Case &c, Outcome &o)
{
  int kind = (int)c.x(NX_KIND);
  double a = c.x(NX_A), b = c.x(NX_B), L = c.x(NX_D) / c.kappa(), d = c.x(NX_E);
  State s = c.start(), g = c.goal();
  o.label(std::string("kind:") + kNum[kind]);
  o.nontrivial = true;
  double mag = magnitude(c, L);
  switch (kind)
  {
    case 0:
    {
      double S = 0, C = 0, S2, C2, rs = 0, rc = 0;
      lib::fresnel(a, S, C);
      double A = std::fabs(a);
      if (A < 20)
        quad(0, A, 1 + (int)(A * A), [&](double t, double w) { rs += w * std::sin(kPi / 2 * t * t), rc += w * std::cos(kPi / 2 * t * t); });
      else
      {
        // asymptotic expansion (Abramowitz & Stegun 7.3.27/28), the first omitted term is below 1e-17; t^2/4 is reduced exactly by fmod
        long double z = 3.14159265358979323846264338327950288L * A * A, f = 1 / (3.14159265358979323846264338327950288L * A),
                    ph = 1.57079632679489661923132169163975144L * std::fmod((long double)A * A, 4.0L);
        long double F = f * (1 - 3 / (z * z) + 105 / (z * z * z * z)), G = f / z * (1 - 15 / (z * z) + 945 / (z * z * z * z));
        rc = (double)(0.5L + F * std::sin(ph) - G * std::cos(ph)), rs = (double)(0.5L - F * std::cos(ph) - G * std::sin(ph));
      }
      o.within("fresnel", std::max(std::fabs(S - sgn1(a) * rs), std::fabs(C - sgn1(a) * rc)), 1e-12 + 1e-14 * A * A,
               "Fresnel integrals at %.17g are (%.12g,%.12g), should be (%.12g,%.12g)", a, S, C, sgn1(a) * rs, sgn1(a) * rc);
      lib::fresnel(-a, S2, C2);
      if (a != 0)
        o.expect(S2 == -S && C2 == -C, "the Fresnel integrals are not odd at %.17g", a);
      break;
    }
    case 1:
    {
      double u = lib::twopify(a), v = lib::pify(a), t = 1e-12 + 1e-15 * std::fabs(a);
      o.expect(u >= -t && u <= 2 * kPi + t, "angle %.17g is mapped to %.17g, outside [0, 2 pi]", a, u);
      o.expect(v >= -kPi - t && v <= kPi + t, "angle %.17g is mapped to %.17g, outside [-pi, pi]", a, v);
      o.within("congruent", std::max(angdiff(a, u), angdiff(a, v)), t, "angle %.17g is mapped to %.17g and %.17g", a, u, v);
      o.expect(lib::sgn(a) == (a < 0 ? -1.0 : 1.0), "sign of %.17g is %g", a, lib::sgn(a));
      break;
    }
    case 2:
    {
      double k0 = std::max(-1.0, std::min(1.0, c.x(NX_C) / 5)) * c.kappa(), x, y, th, k;
      double sg = c.sigma() * d * (std::fabs(b) > 5 ? 1.0 : std::max(1e-3, std::fabs(b) / 5));
      double len = std::min(L, 4 * c.kappa() / std::fabs(sg)), dir = c.x(NX_F) > 2e15 ? 1 : -1;
      lib::end_of_clothoid(s.x, s.y, s.theta, k0, sg, dir, len, &x, &y, &th, &k);
      Pose p = ref_step({ s.x, s.y, s.theta, k0 }, dir, sg, len);
      double cancel = 1e-14 * (1 / std::sqrt(std::fabs(sg))) * (1 + k0 * k0 / std::fabs(sg));
      o.expect(end_ok(p, x, y, th, 1e-8 * mag + cancel),
               "clothoid (k=%.9g, sigma=%.9g, direction %g, length %.9g) ends at (%.9g,%.9g,%.9g), should be (%.9g,%.9g,%.9g)", k0, sg, dir,
               len, x, y, th, p.x, p.y, wrap(p.th));
      o.within("clothoid_curvature", k - (k0 + sg * len), 1e-12 * (c.kappa() + std::fabs(sg * len)),
               "curvature at the end of a clothoid is %.12g, should be %.12g", k, k0 + sg * len);
      break;
    }
    case 3:
    {
      double k0 = sgn1(b) * c.kappa() * std::max(1e-2, std::min(1.0, std::fabs(b) / 5)), x, y, th;
      lib::end_of_circular_arc(s.x, s.y, s.theta, k0, d, L, &x, &y, &th);
      Pose p = ref_step({ s.x, s.y, s.theta, k0 }, d, 0, L);
      o.expect(end_ok(p, x, y, th, 1e-9 * mag), "arc (k=%.9g, direction %g, length %.9g) ends at (%.9g,%.9g,%.9g), should be (%.9g,%.9g,%.9g)",
               k0, d, L, x, y, th, p.x, p.y, wrap(p.th));
      break;
    }
    case 4:
    {
      double x, y;
      lib::end_of_straight_line(s.x, s.y, s.theta, d, L, &x, &y);
      o.within("line", std::hypot(x - s.x - d * L * std::cos(s.theta), y - s.y - d * L * std::sin(s.theta)), 1e-12 * mag,
               "straight line of length %.9g ends at (%.9g,%.9g)", L, x, y);
      break;
    }
    case 5:
    {
      double gx, gy, lx, ly;
      lib::global_frame_change(s.x, s.y, s.theta, a, b, &gx, &gy);
      double m = 1e-12 * (1 + mag + std::fabs(a) + std::fabs(b));
      o.within("to_global", std::hypot(gx - (s.x + a * std::cos(s.theta) - b * std::sin(s.theta)),
                                       gy - (s.y + a * std::sin(s.theta) + b * std::cos(s.theta))),
               m, "local point (%.9g,%.9g) is at (%.9g,%.9g) globally", a, b, gx, gy);
      lib::local_frame_change(s.x, s.y, s.theta, gx, gy, &lx, &ly);
      o.within("round_trip", std::hypot(lx - a, ly - b), m, "change of frame and back moves (%.9g,%.9g) to (%.9g,%.9g)", a, b, lx, ly);
      break;
    }
    case 6:
    {
      double r, th;
      lib::polar(a, b, r, th);
      o.within("polar", std::hypot(r * std::cos(th) - a, r * std::sin(th) - b) / (1e-300 + std::hypot(a, b) + 1e-9), 1e-12,
               "polar coordinates of (%.9g,%.9g) are (%.9g,%.9g)", a, b, r, th);
      o.expect(r >= 0, "negative radius");
      double pd = lib::point_distance(s.x, s.y, g.x, g.y);
      o.within("point_distance", pd - std::hypot(g.x - s.x, g.y - s.y), 1e-12 * mag, "distance of two points is %.12g", pd);
      break;
    }
    case 7:
    {
      Rng r((uint64_t)c.x(NX_F));
      int n = 1 + r.below(20);
      std::vector<double> v(n + 2, -5.5);
      lib::double_array_init(v.data() + 1, n, a);
      o.expect(v[0] == -5.5 && v[n + 1] == -5.5, "initialisation writes outside the array");
      for (int i = 0; i < n; i++)
        o.expect(v[i + 1] == a, "element %d of %d is not initialised", i, n);
      for (int i = 0; i < n; i++)
        v[i + 1] = r.coin(0.3) ? r.below(3) : r.coin(0.2) ? 1.7976931348623157e308 : r.range(-1, 1) * std::pow(10.0, r.below(6));
      int m = lib::array_index_min(v.data() + 1, n);
      o.expect(m >= 0 && m < n, "index %d of the minimum is outside the array of %d", m, n);
      for (int i = 0; i < n && o.ok; i++)
        o.expect(!(v[i + 1] < v[m + 1]), "element %d is smaller than the reported minimum %d", i, m);
      break;
    }
    case 8:
    {
      lib::Configuration q1 = conf(s), q2 = conf(g);
      o.within("heading", angdiff(q1.theta, s.theta), 1e-12 * (1 + std::fabs(s.theta)), "configuration has heading %.12g instead of %.12g", q1.theta, s.theta);
      o.expect(q1.theta >= 0 && q1.theta <= 2 * kPi, "heading %.17g of a configuration is outside [0, 2 pi]", q1.theta);
      double pd = lib::configuration_distance(q1, q2);
      o.within("distance", pd - std::hypot(g.x - s.x, g.y - s.y), 1e-12 * mag, "distance of two configurations is %.12g", pd);
      double pos = std::hypot(g.x - s.x, g.y - s.y), ang = angdiff(g.theta, s.theta);
      double dk = std::fabs(g.kappa - s.kappa);
      bool eq = lib::configuration_equal(q1, q2), near = pos < 0.9 * kEps && ang < 0.9 * kEps && dk < 0.9 * kEps;
      bool far = pos > 1.1 * kEps || ang > 1.1 * kEps || dk > 1.1 * kEps;
      o.expect(!(near && !eq) && !(far && eq), "two configurations %.6g m and %.6g rad apart are %sequal", pos, ang, eq ? "" : "not ");
      // aligned: same heading, and the second lies straight ahead of the first
      double off = std::fabs(-(g.x - s.x) * std::sin(s.theta) + (g.y - s.y) * std::cos(s.theta));
      bool al = lib::configuration_aligned(q1, q2), ahead = (g.x - s.x) * std::cos(s.theta) + (g.y - s.y) * std::sin(s.theta) > 0;
      if (ang > 1.1 * kEps)
        o.expect(!al, "configurations with different headings (%.6g rad) are aligned", ang);
      else if (ang < 0.5 * kEps && pos > 1e-3 && off / pos < 0.5 * kEps && ahead)
        o.expect(al, "configurations %.6g m apart on one line (offset %.3g) are not aligned", pos, off);
      else if (pos > 1e-3 && (off / pos > 2.5 * kEps || !ahead))
        o.expect(!al, "configurations %.6g m apart with lateral offset %.3g are aligned", pos, off);
      break;
    }
    case 9:
    {
      lib::Control u, v;
      u.delta_s = d * L, u.kappa = std::max(-1.0, std::min(1.0, c.x(NX_C) / 5)) * c.kappa();
      u.sigma = std::fabs(b) < 1 ? 0.0 : sgn1(b) * c.sigma();
      v = u;
      lib::reverse_control(v);
      Pose p = ref_step({ s.x, s.y, s.theta, u.kappa }, d, u.sigma, L);
      o.within("reversed_length", v.delta_s + u.delta_s, 1e-15 * (1 + L), "reversed control has length %.9g instead of %.9g", v.delta_s, -u.delta_s);
      o.within("reversed_curvature", v.kappa - p.k, 1e-12 * (c.kappa() + std::fabs(p.k)), "reversed control starts with curvature %.9g instead of %.9g", v.kappa, p.k);
      Pose q = ref_step({ p.x, p.y, p.th, v.kappa }, v.delta_s < 0 ? -1 : 1, v.sigma, std::fabs(v.delta_s));
      if (L > 0)
        o.expect(end_ok({ q.x, q.y, q.th, 0 }, s.x, s.y, s.theta, 1e-9 * mag) && std::fabs(q.k - u.kappa) <= 1e-9 * (c.kappa() + std::fabs(p.k)),
                 "driving a control and its reverse ends %.6g m, %.6g rad off", std::hypot(q.x - s.x, q.y - s.y), angdiff(q.th, s.theta));
      break;
    }
  }
}
static Registrar r_num({ "numerics",
                         "ten groups of elementary functions (Fresnel integrals, angle reduction, end of clothoid/arc/line, frame changes, "
                         "polar coordinates, minimum search, configurations, control reversal) against Gauss-Legendre quadrature and closed "
                         "forms; arguments include the switch-over points, multiples of pi up to rounding, tiny and large values; every "
                         "case is non-trivial",
                         gen_num, eval_num, valid_num, 600000, 10000000 });

// ------------------------------------------------------------------------------------------------ Jacobians
static void gen_jac(Rng &r, Case &c)
{
  c.space = 0;
  gen_params(r, c);
  gen_states(r, c);
  c.x(0) = r.below(4);                                                               // 0 straight 1 arc 2,3 clothoid
  c.x(1) = r.coin(0.2) ? 0.0 : r.range(-1, 1);                                       // curvature / kappa
  c.x(2) = r.sign() * (r.coin() ? 1.0 : r.logrange(2e-3, 1));                        // sharpness / sigma
  c.x(3) = r.logrange(1e-4, 1.5);                                                    // step * kappa
  c.x(4) = r.sign();
  c.x(5) = r.coin(0.3) ? 0.0 : r.range(0, 3);                                        // distance behind the start of the segment / step
}
static bool valid_jac(const Case &c)
{
  return valid_query(c) && c.x(0) >= 0 && c.x(0) <= 3 && c.x(0) == std::floor(c.x(0)) && std::fabs(c.x(1)) <= 1 &&
         std::fabs(c.x(2)) <= 1 && std::fabs(c.x(2)) >= 1e-3 && c.x(3) >= 1e-5 && c.x(3) <= 2 && std::fabs(c.x(4)) == 1 && c.x(5) >= 0 && c.x(5) <= 3;
}
static void eval_jac(const Case &c, Outcome &o)
{
  int kind = (int)c.x(0);
  double d = c.x(4), L = c.x(3) / c.kappa(), k = kind == 0 ? 0.0 : c.x(1) * c.kappa(), sg = kind >= 2 ? c.x(2) * c.sigma() : 0.0;
  if (kind == 1 && std::fabs(k) < 1e-3)
    k = sgn1(k) * c.kappa();
  if (kind >= 2 && std::fabs(sg) < 1.5 * kEps)
    sg = sgn1(sg) * std::max(c.sigma(), 2 * kEps);
  State s = c.start();
  lib::State st;
  st.x = s.x, st.y = s.y, st.theta = s.theta, st.kappa = k, st.d = d;
  lib::Control u;
  // the state is a part of the segment behind its start
  double behind = c.x(5) * L;
  u.delta_s = d * (behind + L + 2 * c.x(5) * L), u.kappa = k - sg * behind, u.sigma = sg;
  lib::EKF ekf;
  lib::Matrix3d Fx(lib::Matrix3d::Zero());
  lib::Matrix32d Fu(lib::Matrix32d::Zero());
  ekf.get_motion_jacobi(st, u, L, Fx, Fu);
  double ic = 0, is = 0, jc = 0, js = 0;
  quad(0, L, 1 + (int)(L * (std::fabs(k) + std::fabs(sg) * L)), [&](double t, double w) {
    double a = s.theta + d * (k * t + 0.5 * sg * t * t);
    ic += w * std::cos(a), is += w * std::sin(a), jc += w * t * std::cos(a), js += w * t * std::sin(a);
  });
  double the = s.theta + d * (k * L + 0.5 * sg * L * L);
  double X[9] = { 1, 0, -d * is, 0, 1, d * ic, 0, 0, 1 };
  double U[6] = { std::cos(the), -js, std::sin(the), jc, k + sg * L, d * L };
  static const char *kk[] = { "straight line", "arc", "clothoid", "clothoid" };
  o.label(std::string("segment:") + kk[kind]);
  o.nontrivial = true;
  // closed forms divide differences of Fresnel integrals / cosines by powers of the sharpness and curvature
  double cancel = 1e-14;
  if (kind >= 2)
    cancel = 1e-13 * (1 + k * k / std::fabs(sg)) * (1 + std::fabs(k) / std::fabs(sg) / std::sqrt(std::fabs(sg)) + 1 / std::fabs(sg));
  else if (kind == 1)
    cancel = 1e-14 * (1 + 1 / (k * k));
  cancel *= 1 + std::fabs(s.theta) / 5;
  for (int i = 0; i < 9; i++)
    o.within("state", Fx(i / 3, i % 3) - X[i], 1e-8 * (1 + L) + cancel, "%s: derivative of coordinate %d w.r.t. state %d is %.12g, should be %.12g",
             kk[kind], i / 3, i % 3, Fx(i / 3, i % 3), X[i]);
  for (int i = 0; i < 6 && o.ok; i++)
  {
    double tol = 1e-8 * (1 + L + L * L + c.kappa()) + cancel, e = std::fabs(Fu(i / 2, i % 2) - U[i]);
    if (kind == 0 && (i == 1 || i == 3) && e > tol && Fu(i / 2, i % 2) == 0)
    {
      o.known = "straight-curvature-column";
      continue;
    }
    o.within("control", e, tol, "%s (k=%.9g sigma=%.9g direction %g length %.9g): derivative of coordinate %d w.r.t. %s is %.12g, should be %.12g",
             kk[kind], k, sg, d, L, i / 2, i % 2 ? "the curvature" : "the arc length", Fu(i / 2, i % 2), U[i]);
  }
}
static Registrar r_jac({ "jacobians",
                         "straight lines, arcs and clothoids with random state, direction and step length; both motion Jacobians against "
                         "quadrature of the derivatives of the motion model; every case is non-trivial",
                         gen_jac, eval_jac, valid_jac, 600000, 10000000 });

// ------------------------------------------------------------------------------------------------ turns on a circle
enum
{
  TX_KIND,    // 0 cc, 1 hc, 2 rs
  TX_LEFT,
  TX_FWD,
  TX_REG,
  TX_ORDER,
  TX_DELTA,   // deflection
  TX_END
};
static void gen_turn(Rng &r, Case &c)
{
  c.space = 0;
  gen_params(r, c);
  gen_states(r, c);
  c.x(TX_KIND) = r.below(3);
  for (int i = TX_LEFT; i <= TX_ORDER; i++)
    c.x(i) = r.below(2);
  double dm = 0.5 * c.kappa() * c.kappa() / c.sigma();
  double m = r.u();
  c.x(TX_DELTA) = m < 0.6 ? r.range(0, 2 * kPi) : m < 0.8 ? std::fmod(2 * dm * r.range(0.5, 1.5), 2 * kPi) : m < 0.9 ? std::fmod(dm * r.range(0.5, 1.5), 2 * kPi) : r.logrange(1e-3, 0.3);
  if (r.coin(0.06))
    c.x(TX_DELTA) = r.coin(0.3) ? 0.0 : r.logrange(1e-9, 1e-3);
  if (r.coin(0.04))
    c.x(TX_DELTA) = 2 * kPi - r.logrange(1e-9, 1e-2);
}
static bool valid_turn(const Case &c)
{
  if (!valid_query(c) || c.x(TX_KIND) < 0 || c.x(TX_KIND) > 2 || c.x(TX_KIND) != std::floor(c.x(TX_KIND)))
    return false;
  for (int i = TX_LEFT; i <= TX_ORDER; i++)
    if (c.x(i) != 0 && c.x(i) != 1)
      return false;
  return c.x(TX_DELTA) >= 0 && c.x(TX_DELTA) <= 2 * kPi;
}
static void eval_turn(const Case &c, Outcome &o)
{
  static const char *kk[] = { "cc-turn", "hc-turn", "rs-turn" };
  int kind = (int)c.x(TX_KIND);
  bool left = c.x(TX_LEFT) > 0, fwd = c.x(TX_FWD) > 0, reg = c.x(TX_REG) > 0, order = c.x(TX_ORDER) > 0;
  double k = c.kappa(), sg = c.sigma(), dm = 0.5 * k * k / sg, delta = c.x(TX_DELTA), l = left ? 1 : -1, f = fwd ? 1 : -1;
  State s = c.start();
  // geometry of the turn from zero curvature, by quadrature
  Pose e = ref_step({ 0, 0, 0, 0 }, 1, sg, k / sg);
  double cx = e.x - std::sin(e.th) / k, cy = e.y + std::cos(e.th) / k, radius = std::hypot(cx, cy), mu = std::atan2(cx, cy);
  lib::HC_CC_Circle_Param par;
  if (kind == 2)
    par.set_param(k, 1.7976931348623157e308, 1 / k, 0.0, 0.0, 1.0, 0.0);
  else
    par.set_param(k, sg, radius, mu, std::sin(mu), std::cos(mu), dm);
  o.label(std::string("turn:") + kk[kind] + (reg ? "/regular" : "/irregular"));
  o.nontrivial = true;
  // the configuration on the circle with this deflection, constructed geometrically
  double th = s.theta + l * f * delta;
  State q;
  double ccx, ccy;
  {
    double px = kind == 2 ? 0 : f * cx, py = kind == 2 ? l / k : l * cy;
    ccx = s.x + px * std::cos(s.theta) - py * std::sin(s.theta), ccy = s.y + px * std::sin(s.theta) + py * std::cos(s.theta);
    // the mirror-symmetric end of a cc-turn sees the centre on the other side; arcs see it abeam
    double qx = kind == 0 ? -px : 0, qy = kind == 0 ? py : l / k;
    q = mk_state(ccx - (qx * std::cos(th) - qy * std::sin(th)), ccy - (qx * std::sin(th) + qy * std::cos(th)), th, kind == 0 ? 0 : l * k);
  }
  lib::Configuration start(s.x, s.y, s.theta, kind == 2 ? l * k : 0), end(q.x, q.y, q.theta, q.kappa);
  lib::HC_CC_Circle circle(start, left, fwd, reg, par);
  double mag = magnitude(c, 0) + radius;
  o.within("centre", std::hypot(circle.xc - ccx, circle.yc - ccy), 1e-9 * mag, "%s: centre is at (%.9g,%.9g), should be (%.9g,%.9g)", kk[kind],
           circle.xc, circle.yc, ccx, ccy);
  o.within("deflection", angdiff(circle.deflection(end), delta), 1e-9, "%s: deflection is %.12g, should be %.12g", kk[kind],
           circle.deflection(end), delta);
  if (kind != 1)
  {
    // membership is decided at the resolution of the library
    double off = 0.01 * radius + 1e-3, tilt = 0.01;
    o.expect(lib::configuration_on_hc_cc_circle(circle, end), "%s: the end of the turn is not recognised as lying on the circle", kk[kind]);
    double ux = (q.x - ccx), uy = (q.y - ccy), ur = std::hypot(ux, uy);
    for (double sg1 : { -1.0, 1.0 })
    {
      lib::Configuration away(q.x + sg1 * off * ux / ur, q.y + sg1 * off * uy / ur, q.theta, q.kappa);
      lib::Configuration turned(q.x, q.y, q.theta + sg1 * tilt, q.kappa);
      o.expect(!lib::configuration_on_hc_cc_circle(circle, away), "%s: a configuration off the circle is taken to lie on it", kk[kind]);
      o.expect(!lib::configuration_on_hc_cc_circle(circle, turned), "%s: a configuration across the circle is taken to lie on it", kk[kind]);
    }
  }
  std::vector<lib::Control> v;
  double len = 0;
  if (kind == 0)
    len = circle.cc_turn_length(end), lib::cc_turn_controls(circle, end, order, v);
  else if (kind == 1)
    len = circle.hc_turn_length(end), lib::hc_turn_controls(circle, end, order, v);
  else
    len = circle.rs_turn_length(end), lib::rs_turn_controls(circle, end, order, v);
  Controls u;
  for (auto &x : v)
    u.push_back({ x.delta_s, x.kappa, x.sigma });
  if (!o.expect(!u.empty() && all_finite(u) && std::isfinite(len), "%s: no controls", kk[kind]))
    return;
  double L = total_length(u);
  // cc-turns with a deflection below the resolution of the library are driven as a straight line
  double snap = kind == 0 && delta < 1.01e-4 ? 2 * delta : 0;
  o.within("length", len - L, 1e-9 * (mag + L) + snap * (radius + L), "%s: length %.12g, but the controls have length %.12g", kk[kind], len, L);
  // the shortest admissible turn of this kind has a deflection that is congruent to the given one
  State a = order ? s : q, b = order ? q : s;
  Pose p = ref_end(a, u);
  double tol = 1e-7 * (mag + L) + snap * (radius + L);
  o.within("end_position", std::hypot(p.x - b.x, p.y - b.y), tol, "%s: ends %.6g off (deflection %.6g, minimal %.6g)", kk[kind],
           std::hypot(p.x - b.x, p.y - b.y), delta, dm);
  o.within("end_heading", angdiff(p.th, b.theta), 1e-7 + snap, "%s: heading off by %.6g", kk[kind], angdiff(p.th, b.theta));
  for (size_t i = 0; i < u.size() && o.ok; i++)
  {
    o.expect(std::fabs(u[i].kappa) <= k * (1 + 1e-9) && std::fabs(k_end(u[i])) <= k * (1 + 1e-9), "%s: curvature bound exceeded", kk[kind]);
    o.expect(std::fabs(u[i].sigma) <= sg * (1 + 1e-9), "%s: sharpness %.12g exceeds %.12g", kk[kind], u[i].sigma, sg);
    if (i)
      o.within("jump", u[i].kappa - k_end(u[i - 1]), 1e-9 * k, "%s: curvature jumps within the turn", kk[kind]);
    o.expect(l * (u[i].kappa + 0.5 * u[i].sigma * std::fabs(u[i].delta_s)) >= -1e-12, "%s: turns to the wrong side", kk[kind]);
    if (!reg && u[i].sigma == 0 && u[i].kappa != 0)
      o.expect(std::fabs(u[i].delta_s) * k <= kPi + 1e-9, "%s: an irregular turn takes the longer arc (%.9g rad)", kk[kind], std::fabs(u[i].delta_s) * k);
    if (reg)
      o.expect(u[i].delta_s * f * (order ? 1 : -1) >= -1e-12, "%s: a regular turn drives in the wrong direction", kk[kind]);
  }
  // curvature at the ends of the turn
  double k0 = u.front().kappa, k1 = k_end(u.back()), w0 = kind == 0 || (kind == 1 && order) ? 0 : l * k, w1 = kind == 0 || (kind == 1 && !order) ? 0 : l * k;
  o.within("end_curvature", std::max(std::fabs(k0 - w0), std::fabs(k1 - w1)), 1e-9 * k, "%s: curvature is %.9g at the start and %.9g at the end", kk[kind],
           k0, k1);
}
static Registrar r_turn({ "turns",
                          "cc-, hc- and rs-turns, left/right, forwards/backwards, regular/irregular, driven in both orders, to configurations on "
                          "the circle constructed geometrically; lengths and controls against exact integration; every case is non-trivial",
                          gen_turn, eval_turn, valid_turn, 600000, 10000000 });
}  // namespace vh
