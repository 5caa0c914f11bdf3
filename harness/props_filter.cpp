// Propagation of the belief (covariances) along a path.
#include "util.hpp"
namespace vh
{
// ------------------------------------------------------------------------------------------------ small matrices
typedef long double ld;
struct M3
{
  ld a[3][3] = { { 0 } };
  ld *operator[](int i)
  {
    return a[i];
  }
  const ld *operator[](int i) const
  {
    return a[i];
  }
};
static M3 mul(const M3 &p, const M3 &q)
{
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 3; k++)
        r[i][j] += p[i][k] * q[k][j];
  return r;
}
static M3 tr(const M3 &p)
{
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r[i][j] = p[j][i];
  return r;
}
static M3 add(const M3 &p, const M3 &q, ld f = 1)
{
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r[i][j] = p[i][j] + f * q[i][j];
  return r;
}
static M3 inv(const M3 &m)
{
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
    {
      int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, d = (i + 2) % 3;
      r[i][j] = m[a][c] * m[b][d] - m[a][d] * m[b][c];
    }
  ld det = m[0][0] * r[0][0] + m[0][1] * r[1][0] + m[0][2] * r[2][0];
  for (auto &row : r.a)
    for (auto &x : row)
      x /= det;
  return r;
}
static ld maxabs(const M3 &m)
{
  ld x = 0;
  for (auto &row : m.a)
    for (auto &v : row)
      x = std::max(x, std::fabs(v));
  return x;
}
static M3 block(const double *c)
{
  M3 m;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      m[i][j] = c[4 * i + j];
  return m;
}
// smallest eigenvalue of a symmetric matrix (Jacobi rotations)
static ld min_eig(M3 m)
{
  for (int sweep = 0; sweep < 60; sweep++)
  {
    ld off = std::fabs(m[0][1]) + std::fabs(m[0][2]) + std::fabs(m[1][2]);
    if (off <= 1e-20L * maxabs(m))
      break;
    for (int p = 0; p < 2; p++)
      for (int q = p + 1; q < 3; q++)
      {
        if (m[p][q] == 0)
          continue;
        ld th = 0.5L * std::atan2(2 * m[p][q], m[q][q] - m[p][p]), c = std::cos(th), s = std::sin(th);
        M3 g;
        g[0][0] = g[1][1] = g[2][2] = 1;
        g[p][p] = g[q][q] = c, g[p][q] = s, g[q][p] = -s;
        m = mul(tr(g), mul(m, g));
      }
  }
  return std::min({ m[0][0], m[1][1], m[2][2] });
}

// ------------------------------------------------------------------------------------------------ cases
struct Noise
{
  Motion_Noise m;
  Measurement_Noise z;
  Controller k;
};
enum
{
  X_SEED,
  X_N,
  X_FREE,
  X_BELIEF,
  X_SCALE_S,
  X_SCALE_L,
  X_A1,
  X_A2,
  X_A3,
  X_A4,
  X_ZX,
  X_ZY,
  X_ZT,
  X_K1,
  X_K2,
  X_K3,
  X_EXTRA,
  X_PHI,
  X_END
};
static Noise noise_of(const Case &c)
{
  Noise n;
  n.m = { c.x(X_A1), c.x(X_A2), c.x(X_A3), c.x(X_A4) };
  n.z = { c.x(X_ZX), c.x(X_ZY), c.x(X_ZT) };
  n.k = { c.x(X_K1), c.x(X_K2), c.x(X_K3) };
  return n;
}
static State_With_Covariance belief_of(const Case &c)
{
  Rng r((uint64_t)c.x(X_BELIEF));
  State_With_Covariance b;
  b.state = c.start();
  for (int which = 0; which < 2; which++)
  {
    double f = which ? c.x(X_SCALE_L) : c.x(X_SCALE_S);
    M3 a;
    bool diag = r.coin(0.3);
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
      {
        double v = r.range(-1, 1);
        a[i][j] = diag && i != j ? 0 : v;
      }
    M3 p = mul(a, tr(a));
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        (which ? b.Lambda : b.Sigma)[4 * i + j] = (double)p[i][j] * f;
  }
  for (int i = 0; i < 16; i++)
    b.covariance[i] = b.Sigma[i] + b.Lambda[i];
  return b;
}
// the Jacobians of very lazy vehicles lose digits
static bool well_conditioned(const Case &c)
{
  double k = c.kappa(), s = c.sigma() / (k * k);
  return k > 0.0499 && k < 5.01 && s > 0.0999 && s < 20.01;
}
static void gen_belief(Rng &r, Case &c)
{
  do
    gen_query(r, c);
  while (c.cls == 2 || !well_conditioned(c));  // far goals take many steps
  // few large steps keep a case cheap
  c.v[F_DISC] = std::max(0.05 / c.kappa(), std::min(2.0, r.logrange(0.05, 1.5) / c.kappa()));
  gen_free_controls(r, c);
  c.x(X_FREE) = r.coin(0.45);
  c.x(X_BELIEF) = (double)(r.next() >> 12);
  c.x(X_SCALE_S) = r.coin(0.2) ? 0.0 : r.logrange(1e-4, 3);
  c.x(X_SCALE_L) = r.coin(0.3) ? 0.0 : r.logrange(1e-4, 3);
  for (int i = X_A1; i <= X_A4; i++)
    c.x(i) = r.coin(0.2) ? 0.0 : r.logrange(1e-3, 1);
  for (int i = X_ZX; i <= X_ZT; i++)
    c.x(i) = r.logrange(0.02, 2);
  for (int i = X_K1; i <= X_K3; i++)
    c.x(i) = r.coin(0.2) ? 0.0 : r.logrange(0.05, 3);
  c.x(X_EXTRA) = r.logrange(1e-3, 2);
  c.x(X_PHI) = r.range(-kPi, kPi);
}
static bool valid_belief(const Case &c)
{
  if (!valid_query(c) || !well_conditioned(c) || c.x(0) < 0 || c.x(1) < 1 || c.x(X_BELIEF) < 0 || c.x(X_SCALE_S) < 0 || c.x(X_SCALE_L) < 0 || c.x(X_EXTRA) < 0)
    return false;
  if (c.disc() * c.kappa() < 0.0499 || c.disc() > std::max(2.0, 0.0501 / c.kappa()))
    return false;
  for (int i = X_A1; i <= X_A4; i++)
    if (c.x(i) < 0)
      return false;
  for (int i = X_ZX; i <= X_ZT; i++)
    if (c.x(i) < 0.0199)
      return false;
  for (int i = X_K1; i <= X_K3; i++)
    if (c.x(i) < 0 || c.x(i) > 3.01)
      return false;
  return true;
}
typedef std::vector<State_With_Covariance> Beliefs;
static Beliefs run(const Case &c, Controls &u, const State_With_Covariance &b, const Noise &n)
{
  auto sp = space_of(c);
  sp->set_filter(n.m, n.z, n.k);
  if (c.x(X_FREE) >= 0.5)
  {
    u = free_controls(c);
    return sp->integrate_cov(b, u);
  }
  u = sp->controls(c.start(), c.goal());
  return sp->path_cov(b, c.goal());
}

// ------------------------------------------------------------------------------------------------ model of one step
static const double kGx[8] = { 0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438,
                               0.7554044083550030, 0.8656312023878318, 0.9445750230732326, 0.9894009349916499 };
static const double kGw[8] = { 0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767,
                               0.1246289712555339, 0.0951585116824928, 0.0622535239386479, 0.0271524594117541 };
struct Step
{
  M3 Sigma, Lambda;
  ld scale;  // size of the predicted Sigma
  ld rel;    // relative tolerance
};
// belief after a motion of length L and a measurement, first-order propagation; Jacobians by quadrature of the motion model.
// zero_column: the influence of the curvature input on the position is neglected (known finding on straight segments)
static Step model_step(const State_With_Covariance &p, const Control &u, double L, const Noise &n, bool zero_column)
{
  double d = u.delta_s < 0 ? -1 : 1, k = p.state.kappa, s = u.sigma, th = p.state.theta;
  double ic = 0, is = 0, jc = 0, js = 0;  // integrals of cos, sin, s cos, s sin along the step
  int panels = 1 + (int)(L * (std::fabs(k) + std::fabs(s) * L));
  for (int q = 0; q < panels; q++)
    for (int i = 0; i < 16; i++)
    {
      double h = L / panels, x = (i < 8 ? kGx[i] : -kGx[i - 8]), t = h * (q + 0.5 * (1 + x)), w = 0.5 * h * kGw[i & 7];
      double a = th + d * (k * t + 0.5 * s * t * t);
      ic += w * std::cos(a), is += w * std::sin(a), jc += w * t * std::cos(a), js += w * t * std::sin(a);
    }
  double the = th + d * (k * L + 0.5 * s * L * L);
  M3 Fx, Q, Fu;  // Fu is 3x2, embedded
  Fx[0][0] = Fx[1][1] = Fx[2][2] = 1;
  Fx[0][2] = -d * is, Fx[1][2] = d * ic;
  Fu[0][0] = std::cos(the), Fu[1][0] = std::sin(the), Fu[2][0] = k + s * L;
  Fu[0][1] = zero_column ? 0 : -js, Fu[1][1] = zero_column ? 0 : jc, Fu[2][1] = d * L;
  Q[0][0] = n.m.alpha1 * L * L + n.m.alpha2 * k * k;
  Q[1][1] = n.m.alpha3 * L * L + n.m.alpha4 * k * k;
  M3 K, R;  // K is 2x3, embedded; R rotates into the frame of the vehicle
  K[0][0] = n.k.k1, K[1][1] = n.k.k2, K[1][2] = d * n.k.k3;
  R[0][0] = R[1][1] = std::cos(th), R[0][1] = std::sin(th), R[1][0] = -std::sin(th), R[2][2] = 1;
  M3 S = add(mul(Fx, mul(block(p.Sigma), tr(Fx))), mul(Fu, mul(Q, tr(Fu))));
  M3 FK = add(Fx, mul(Fu, mul(K, R)), -1);
  M3 La = mul(FK, mul(block(p.Lambda), tr(FK)));
  M3 Z = S;
  Z[0][0] += (ld)n.z.std_x * n.z.std_x, Z[1][1] += (ld)n.z.std_y * n.z.std_y, Z[2][2] += (ld)n.z.std_theta * n.z.std_theta;
  M3 G = mul(mul(S, inv(Z)), S);  // what the measurement removes from Sigma goes to Lambda
  Step o;
  o.Sigma = add(S, G, -1);
  o.Lambda = add(La, G);
  o.scale = maxabs(S);
  // the closed forms for clothoids divide differences of Fresnel integrals by powers of the sharpness
  double as = std::fabs(s), ak = std::fabs(k);
  // inverting the covariance of the innovation in double precision costs the square of its condition number
  ld cond = maxabs(Z) * maxabs(inv(Z));
  o.rel = 1e-15L * cond * cond + 1e-7L + (1 + std::fabs(th) / 5) * (as > 0 ? 1e-11L * (1 + k * k / as) * (1 + ak / (as * std::sqrt(as)) + 1 / as) : k != 0 ? 1e-13L / (k * k) : 0);
  return o;
}
// deviation in units of the tolerance; an error of the Jacobians enters the updated Sigma at most by its share of the predicted one
static double step_error(const State_With_Covariance &q, const Step &m)
{
  ld e = maxabs(add(block(q.Sigma), m.Sigma, -1)) / (m.rel * m.scale + 1e-14L);
  e = std::max(e, maxabs(add(block(q.Lambda), m.Lambda, -1)) / (m.rel * (m.scale + maxabs(m.Lambda)) + 1e-14L));
  return (double)e;
}
static bool same_matrices(const State_With_Covariance &a, const State_With_Covariance &b)
{
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (a.Sigma[4 * i + j] != b.Sigma[4 * i + j] || a.Lambda[4 * i + j] != b.Lambda[4 * i + j])
        return false;
  return true;
}
static bool same_pose(const State &a, const State &b, double mag)
{
  return std::fabs(a.x - b.x) <= 1e-9 * mag && std::fabs(a.y - b.y) <= 1e-9 * mag && angdiff(a.theta, b.theta) <= 1e-9;
}
// bound of the rounding error of the Kalman gain up to every belief: the square of the condition number of the innovation covariance
static std::vector<double> gain_error(const Beliefs &P, const Controls &u, const Noise &n, double disc)
{
  double sg = 0, rmin = std::min({ n.z.std_x, n.z.std_y, n.z.std_theta }), rmax = std::max({ n.z.std_x, n.z.std_y, n.z.std_theta });
  for (const Control &c : u)
    sg = std::max(sg, std::fabs(c.sigma));
  std::vector<double> e(P.size(), 0);
  for (size_t k = 1; k < P.size(); k++)
  {
    double L = std::min(disc, std::hypot(P[k].state.x - P[k - 1].state.x, P[k].state.y - P[k - 1].state.y) +
                                  angdiff(P[k].state.theta, P[k - 1].state.theta));
    double kk = std::fabs(P[k - 1].state.kappa) + sg * L;
    double S = (double)maxabs(block(P[k - 1].Sigma)) * (1 + L) * (1 + L) +
               (n.m.alpha1 * L * L + n.m.alpha2 * kk * kk) * (1 + kk * kk) + (n.m.alpha3 * L * L + n.m.alpha4 * kk * kk) * L * L;
    double cond = 1 + (S + rmax * rmax) / (rmin * rmin);
    e[k] = std::max(e[k - 1], 1e-15 * cond * cond);
  }
  return e;
}
// gains and steps chosen at random may make the closed loop unstable
static bool diverged(const State_With_Covariance &b)
{
  return !(maxabs(block(b.Lambda)) < 1e7 && maxabs(block(b.Sigma)) < 1e7);
}
static void eval_model(const Case &c, Outcome &o)
{
  const char *nm = kInfo[c.space].name;
  o.label(std::string("space:") + nm);
  o.label(c.x(X_FREE) >= 0.5 ? "free_controls" : "query");
  Controls u;
  Noise n = noise_of(c);
  State_With_Covariance b0 = belief_of(c);
  Beliefs P = run(c, u, b0, n);
  if (!o.expect(!P.empty(), "%s: no states", nm))
    return;
  double mag = magnitude(c, total_length(u));
  size_t j = 0;
  double rem = u.empty() ? 0 : std::fabs(u[0].delta_s);
  int steps = 0, skipped = 0;
  for (size_t k = 1; k < P.size() && o.ok; k++)
  {
    const State_With_Covariance &p = P[k - 1], &q = P[k];
    if (diverged(p) || diverged(q))
    {
      o.label("unstable_controller");
      return;
    }
    if (same_pose(p.state, q.state, mag) && same_matrices(p, q))
      continue;
    bool done = false;
    while (!done && o.ok)
    {
      if (j >= u.size())
      {
        o.fail("%s: belief %zu of %zu lies behind the end of the path", nm, k, P.size());
        return;
      }
      double L = std::min(c.disc(), rem);
      bool tiny = rem <= 1e-8 * mag;
      Pose e = ref_step({ p.state.x, p.state.y, p.state.theta, p.state.kappa }, u[j].delta_s < 0 ? -1 : 1, u[j].sigma, L);
      bool pose_ok = std::fabs(e.x - q.state.x) + std::fabs(e.y - q.state.y) <= (tiny ? 4e-9 : 1e-6) * mag &&
                     angdiff(e.th, q.state.theta) <= (tiny ? 4e-9 : 1e-6);
      double ak = std::fabs(p.state.kappa), as = std::fabs(u[j].sigma);
      bool resolved = (as == 0 || as > 1.01 * kEps) && (as > 0 || ak <= 1e-12 || ak > 1.01 * kEps);
      if (pose_ok || !tiny)
      {
        if (!resolved)
          skipped++;
        else
        {
          double err = pose_ok ? step_error(q, model_step(p, u[j], L, n, false)) : 1e9;
          bool straight = as == 0 && ak <= 1e-12;
          if (err > 1 && straight && pose_ok)
          {
            double e2 = step_error(q, model_step(p, u[j], L, n, true));
            if (e2 <= 1)
              o.known = "straight-curvature-column", err = e2;
          }
          if (tiny && err > 1)
          {
            j++, rem = j < u.size() ? std::fabs(u[j].delta_s) : 0;
            continue;
          }
          if (!pose_ok)
            o.fail("%s: state %zu of the belief path does not follow the controls: (%.9g,%.9g,%.9g) instead of (%.9g,%.9g,%.9g)", nm,
                   k, q.state.x, q.state.y, q.state.theta, e.x, e.y, e.th);
          else
          {
            Step m = model_step(p, u[j], L, n, false);
            o.within("one_step", err, 1.0,
                     "%s: belief after step %zu (length %.6g, kappa %.6g, sigma %.6g) deviates by %.3g tolerances: Sigma_xx %.9g, "
                     "expected %.9g, Lambda_xx %.9g, expected %.9g",
                     nm, k, L, p.state.kappa, u[j].sigma, err, q.Sigma[0], (double)m.Sigma[0][0], q.Lambda[0],
                     (double)m.Lambda[0][0]);
          }
        }
        if (++steps - skipped >= 2)
          o.nontrivial = true;
        rem = std::max(0.0, rem - L);
        done = true;
      }
      else
        j++, rem = j < u.size() ? std::fabs(u[j].delta_s) : 0;
    }
  }
  double left = j < u.size() ? rem : 0;
  for (size_t i = j + 1; i < u.size(); i++)
    left += std::fabs(u[i].delta_s);
  if (o.ok)
    o.expect(left <= 1e-6 * mag, "%s: the beliefs end %.6g before the end of the path", nm, left);
  if (skipped)
    o.label("below_resolution");
}
static Registrar r_model({ "belief_model",
                           "19 spaces, queries of 15 classes and free control sequences, random initial beliefs, noise parameters and "
                           "controller gains; every step of the returned belief path is compared with an independent first-order "
                           "propagation (quadrature Jacobians, Kalman update in long double); non-trivial = at least two steps "
                           "compared",
                           gen_belief, eval_model, valid_belief, 150000, 3000000 });

// ------------------------------------------------------------------------------------------------ validity
static void eval_valid(const Case &c, Outcome &o)
{
  const char *nm = kInfo[c.space].name;
  o.label(std::string("space:") + nm);
  Controls u;
  Noise n = noise_of(c);
  State_With_Covariance b0 = belief_of(c);
  Beliefs P = run(c, u, b0, n);
  auto sp = space_of(c);
  Path S = c.x(X_FREE) >= 0.5 ? sp->integrate(c.start(), u) : sp->path(c.start(), c.goal());
  if (!o.expect(P.size() == S.size() && !P.empty(), "%s: %zu beliefs but %zu states on the same path", nm, P.size(), S.size()))
    return;
  double mag = magnitude(c, total_length(u));
  M3 R;
  R[0][0] = n.z.std_x * n.z.std_x, R[1][1] = n.z.std_y * n.z.std_y, R[2][2] = n.z.std_theta * n.z.std_theta;
  bool moved = false;
  double worst = 0;
  std::vector<double> ge = gain_error(P, u, n, c.disc());
  for (size_t k = 0; k < P.size() && o.ok; k++)
  {
    const State &a = P[k].state, &s = S[k];
    double e = std::max({ std::fabs(a.x - s.x) / mag, std::fabs(a.y - s.y) / mag, angdiff(a.theta, s.theta),
                          std::fabs(a.kappa - s.kappa) / c.kappa() });
    o.within("same_states", e, 1e-9, "%s: state %zu of the belief path is not the state of the path (off by %.3g)", nm, k, e);
    o.expect(a.d == s.d, "%s: driving direction of belief %zu is %g, of the path %g", nm, k, a.d, s.d);
    if (diverged(P[k]))
    {
      o.label("unstable_controller");
      return;
    }
    M3 Sg = block(P[k].Sigma), La = block(P[k].Lambda), Cv = block(P[k].covariance);
    double sc = worst = std::max(worst, (double)(maxabs(Sg) + maxabs(La)) + 1e-15);  // rounding errors of earlier steps persist
    if (k == 0)
      for (int i = 0; i < 16 && o.ok; i++)
        o.expect(P[0].Sigma[i] == b0.Sigma[i] && P[0].Lambda[i] == b0.Lambda[i] && P[0].covariance[i] == b0.covariance[i],
                 "%s: the first belief differs from the initial one in entry %d", nm, i);
    else if (!same_matrices(P[k], P[k - 1]))
      moved = true;
    o.within("total", (double)maxabs(add(Cv, add(Sg, La), -1)), 1e-11 * sc, "%s: covariance %zu is not the sum of its parts", nm, k);
    o.within("symmetry", (double)std::max(maxabs(add(Sg, tr(Sg), -1)), maxabs(add(La, tr(La), -1))), (1e-7 + ge[k]) * sc,
             "%s: covariance %zu is not symmetric", nm, k);
    o.within("psd_sigma", (double)std::max(0.0L, -min_eig(Sg)), (1e-9 + ge[k]) * sc, "%s: estimation covariance %zu has a negative eigenvalue", nm, k);
    o.within("psd_lambda", (double)std::max(0.0L, -min_eig(La)), (1e-9 + ge[k]) * sc, "%s: error covariance %zu has a negative eigenvalue", nm, k);
    if (moved)
      o.within("below_measurement", (double)std::max(0.0L, -min_eig(add(R, Sg, -1))), (1e-9 + ge[k]) * (double)(maxabs(R) + sc),
               "%s: estimation covariance %zu exceeds the measurement noise", nm, k);
  }
  o.nontrivial = moved && P.size() >= 3;
  if (!o.ok)
    return;
  // more initial uncertainty never leads to less
  State_With_Covariance b1 = b0;
  for (int i = 0; i < 3; i++)
  {
    b1.Sigma[5 * i] += c.x(X_EXTRA) * (i == (int)(c.x(X_BELIEF)) % 3 ? 1 : 0.1);
    b1.covariance[5 * i] = b1.Sigma[5 * i] + b1.Lambda[5 * i];
  }
  Beliefs P1 = run(c, u, b1, n);
  o.expect(P1.size() == P.size(), "%s: the number of states depends on the initial belief", nm);
  std::vector<double> ge1 = gain_error(P1, u, n, c.disc());
  for (size_t k = 0; k < P.size() && o.ok; k++)
  {
    double sc = (double)(maxabs(block(P1[k].Sigma)) + maxabs(block(P1[k].Lambda))) + 1e-15;
    o.within("monotone", (double)std::max(0.0L, -min_eig(add(block(P1[k].Sigma), block(P[k].Sigma), -1))), (1e-8 + ge1[k]) * sc,
             "%s: a larger initial covariance leads to a smaller estimation covariance at state %zu", nm, k);
  }
  // only Sigma and Lambda of the pose are propagated, whatever the given total and the entries of the curvature are
  State_With_Covariance b3 = b0;
  Rng r3((uint64_t)c.x(X_BELIEF) + 1);
  for (int i = 0; i < 16; i++)
  {
    b3.covariance[i] = r3.range(-1, 1);
    if (i % 4 == 3 || i >= 12)
      b3.Sigma[i] = r3.range(-1, 1), b3.Lambda[i] = r3.range(-1, 1);
  }
  Beliefs P3 = run(c, u, b3, n);
  o.expect(P3.size() == P.size(), "%s: the number of states depends on the initial belief", nm);
  moved = false;
  for (size_t k = 0; k < P3.size() && o.ok; k++)
  {
    if (k == 0)
      for (int i = 0; i < 16 && o.ok; i++)
        o.expect(P3[0].Sigma[i] == b3.Sigma[i] && P3[0].Lambda[i] == b3.Lambda[i] && P3[0].covariance[i] == b3.covariance[i],
                 "%s: the first belief differs from the initial one in entry %d", nm, i);
    else if (!same_matrices(P[k], P[k - 1]))
      moved = true;
    double sc = (double)(maxabs(block(P[k].Sigma)) + maxabs(block(P[k].Lambda))) + 1e-15;
    o.within("unused_entries",
             (double)std::max({ maxabs(add(block(P3[k].Sigma), block(P[k].Sigma), -1)), maxabs(add(block(P3[k].Lambda), block(P[k].Lambda), -1)),
                                moved ? maxabs(add(block(P3[k].covariance), block(P[k].covariance), -1)) : 0 }),
             1e-10 * sc, "%s: belief %zu depends on the given total or on entries of the curvature", nm, k);
  }
  // isotropic measurements: turning the world turns the covariances
  if (!o.ok || c.x(X_FREE) < 0.5)
    return;
  Case t = c;
  t.x(X_ZY) = t.x(X_ZX);
  Noise ni = noise_of(t);
  Beliefs A = run(t, u, b0, ni);
  double phi = c.x(X_PHI), cp = std::cos(phi), sp_ = std::sin(phi);
  M3 T;
  T[0][0] = T[1][1] = cp, T[0][1] = -sp_, T[1][0] = sp_, T[2][2] = 1;
  State_With_Covariance b2 = b0;
  State s0 = b0.state;
  b2.state.x = s0.x * cp - s0.y * sp_, b2.state.y = s0.x * sp_ + s0.y * cp, b2.state.theta = s0.theta + phi;
  M3 s2 = mul(T, mul(block(b0.Sigma), tr(T))), l2 = mul(T, mul(block(b0.Lambda), tr(T)));
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      b2.Sigma[4 * i + j] = (double)s2[i][j], b2.Lambda[4 * i + j] = (double)l2[i][j],
                    b2.covariance[4 * i + j] = b2.Sigma[4 * i + j] + b2.Lambda[4 * i + j];
  Case t2 = t;
  t2.set_start(b2.state);
  Beliefs B = run(t2, u, b2, ni);
  o.expect(A.size() == B.size(), "%s: the number of states depends on the orientation", nm);
  std::vector<double> ga = gain_error(A, u, ni, c.disc());
  for (size_t k = 0; k < A.size() && o.ok; k++)
  {
    M3 ca = block(A[k].covariance), cb = block(B[k].covariance);
    double sc = (double)maxabs(ca) + 1e-15;
    o.within("rotation", (double)maxabs(add(mul(T, mul(ca, tr(T))), cb, -1)), (1e-7 + ga[k]) * sc * (double)(1 + k),
             "%s: turning the world does not turn covariance %zu", nm, k);
  }
}
// gains of a stable closed loop: an unstable one amplifies rounding errors without bound
static void gen_stable(Rng &r, Case &c)
{
  gen_belief(r, c);
  c.x(X_K1) = r.coin(0.2) ? 0.0 : r.range(0, 1);
  c.x(X_K3) = r.coin(0.2) ? 0.0 : std::min(3.0, r.logrange(0.05, 0.8) / c.disc());
  c.x(X_K2) = r.coin(0.2) ? 0.0 : 0.25 * c.x(X_K3) * c.x(X_K3) * r.logrange(0.05, 0.9);
}
static bool valid_stable(const Case &c)
{
  return valid_belief(c) && c.x(X_K1) <= 1 && c.x(X_K3) * c.disc() <= 0.801 && c.x(X_K2) <= 0.2251 * c.x(X_K3) * c.x(X_K3);
}
static Registrar r_valid({ "belief_valid",
                           "cases of belief_model with gains of a stable closed loop; checks symmetry, definiteness, additivity, the bound by the measurement noise, "
                           "monotonicity in the initial belief, rotation with the world, agreement with the states of the plain path; "
                           "non-trivial = the belief changes and the path has at least three states",
                           gen_stable, eval_valid, valid_stable, 120000, 2400000 });
}  // namespace vh
