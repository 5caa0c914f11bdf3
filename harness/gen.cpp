// Case generators shared by the properties.
#include "util.hpp"
namespace vh
{
static const char *kClass[] = { "uniform", "near",      "far",     "word",   "lattice",   "same_position",
                                "collinear", "parallel", "equal", "almost_equal", "half_turn", "word_perturbed", "concentric", "on_circle", "touching" };
const char *class_name(int c)
{
  return (c >= 0 && c < 15) ? kClass[c] : "?";
}

void gen_params(Rng &r, Case &c)
{
  double k, s;
  switch (r.below(7))
  {
    case 6:  // rail-like to toy-like vehicles, lazy to abrupt steering
      k = r.logrange(0.01, 8.0);
      s = k * k * r.logrange(0.06, 80.0);
      break;
    case 0:
      k = 1.0, s = 1.0;
      break;
    case 1:
      k = 0.2, s = 0.2;
      break;
    case 2:  // wide range of clothoid deflections
      k = r.logrange(0.05, 5.0);
      s = k * k * r.logrange(0.1, 20.0);
      break;
    default:
      k = r.logrange(0.1, 3.0);
      s = k * k * r.logrange(0.4, 5.0);
      break;
  }
  c.v[F_KAPPA] = k;
  c.v[F_SIGMA] = s;
  static const double ds[] = { 0.1, 0.05, 0.2, 0.5, 1.0 };
  c.v[F_DISC] = r.coin(0.6) ? ds[r.below(5)] / std::max(1.0, k) : r.logrange(0.02, 3.0) / k;
}

static double gen_angle(Rng &r)
{
  switch (r.below(8))
  {
    case 0:
      return r.below(9) * kPi / 4 - kPi;
    case 1:
      return r.coin(0.9) ? r.range(-20, 20) : r.sign() * r.logrange(20, 1000);
    case 2:
      return r.below(9) * kPi / 4 - kPi + r.sign() * r.logrange(1e-12, 1e-2);
    default:
      return r.range(-kPi, kPi);
  }
}

double gen_curv(Rng &r, CurvMode m, double kmax)
{
  switch (m)
  {
    case CURV_NONE:
    case CURV_ZERO:
      return r.coin(0.7) ? 0.0 : r.range(-kmax, kmax);  // ignored by the space
    case CURV_PM:
    {
      int q = r.below(10);
      if (r.coin(0.1))
        return r.sign() * r.logrange(1e-6, 1.0) * kmax;  // only the sign counts
      return q < 4 ? kmax : q < 8 ? -kmax : 0.0;
    }
    default:
    {
      int q = r.below(12);
      if (q < 1)
        return kmax;
      if (q < 2)
        return -kmax;
      if (q < 4)
        return 0.0;
      if (q < 5)
        return r.sign() * r.range(0, 0.05) * kmax;
      if (q < 6)
        return r.sign() * (1 - r.range(0, 0.05)) * kmax;
      return r.range(-kmax, kmax);
    }
  }
}

// random feasible drive of the space, made of a few segments, from curvature k0
Controls gen_word(Rng &r, int space, double kmax, double smax, double k0)
{
  const SpaceInfo &f = kInfo[space];
  Controls w;
  double R = 1 / kmax;
  int d = f.dir ? f.dir : (r.coin() ? 1 : -1);
  auto seg = [&](double ds, double k, double sg) {
    Control u;
    u.delta_s = ds, u.kappa = k, u.sigma = sg;
    w.push_back(u);
  };
  int n = 1 + r.below(4);
  if (f.cont == G1)
  {
    for (int i = 0; i < n; i++)
    {
      int t = r.below(3);
      double L = t == 1 ? r.range(0, 4) * R : r.range(0, r.coin(0.8) ? kPi : 2 * kPi) * R;
      if (r.coin(0.15))
        L = kPi / 2 * R;
      seg(d * L, t == 0 ? kmax : t == 1 ? 0.0 : -kmax, 0);
      if (!f.dir && r.coin())
        d = -d;
    }
    return w;
  }
  // clothoid / arc / line words with full sharpness; back to zero curvature between turns
  double k = k0;
  for (int i = 0; i < n; i++)
  {
    if (std::fabs(k) > 0 && r.coin(0.5))
    {  // stay on the arc for a while
      seg(d * r.range(0, 2) * R, k, 0);
    }
    double target;
    int t = r.below(3);
    target = t == 0 ? kmax : t == 1 ? -kmax : 0.0;
    if (r.coin(0.2))
      target = r.range(-kmax, kmax);
    if (i == n - 1)
      target = gen_curv(r, f.goal, kmax);
    if (i == n - 1 && f.goal == CURV_PM)
      target = target < 0 ? -kmax : kmax;
    double dk = target - k;
    if (std::fabs(dk) > 0)
      seg(d * std::fabs(dk) / smax, k, dk > 0 ? smax : -smax);
    k = target;
    double L = k == 0 ? r.range(0, 4) * R : r.range(0, 3) * R;
    if (r.coin(0.85))
      seg(d * L, k, 0);
    if (!f.dir && r.coin())
    {
      d = -d;
      if (f.cont == HC && r.coin())
        k = r.coin() ? -k : 0.0;
    }
  }
  if (w.empty())
    seg(0, k0, 0);
  return w;
}

// centre of the turn in the frame of its start: plain arc at full curvature, or clothoid from zero curvature
static void turn_centre(const Case &c, bool outer, double &x, double &y)
{
  double k = c.kappa(), s = c.sigma();
  x = 0, y = 1 / k;
  if (outer)
  {
    Pose p = { 0, 0, 0, 0 };
    p = ref_step(p, 1, s, k / s);
    x = p.x - std::sin(p.th) / k;
    y = p.y + std::cos(p.th) / k;
  }
}

void gen_states(Rng &r, Case &c)
{
  const SpaceInfo &f = kInfo[c.space];
  double k = c.kappa(), R = 1 / k;
  double sx = 0, sy = 0, st = 0;
  if (r.coin(0.75))
  {
    sx = r.range(-10, 10) * R;
    sy = r.range(-10, 10) * R;
    st = gen_angle(r);
    if (r.coin(0.06))
      sx += r.sign() * r.logrange(10, 900) * R, sy += r.sign() * r.logrange(10, 900) * R;
  }
  double sk = gen_curv(r, f.start, k), gk = gen_curv(r, f.goal, k);
  int q = r.below(100);
  int cls = q < 34 ? 0 : q < 48 ? 1 : q < 53 ? 2 : q < 68 ? 3 : q < 74 ? 4 : q < 79 ? 5 : q < 83 ? 6 : q < 87 ? 7 : q < 89 ? 8 : q < 92 ? 9 : q < 93 ? 10 : q < 95 ? 11 : q < 96 ? 12 : q < 97 ? 13 : 14;
  c.cls = cls;
  double gx = 0, gy = 0, gt = 0;
  switch (cls)
  {
    case 0:
    {
      double B = r.coin() ? 4 * R : 10 * R;
      gx = sx + r.range(-B, B), gy = sy + r.range(-B, B), gt = gen_angle(r);
      break;
    }
    case 1:
    {
      double D = R * r.logrange(1e-2, 3), a = r.range(-kPi, kPi);
      gx = sx + D * std::cos(a), gy = sy + D * std::sin(a), gt = gen_angle(r);
      if (r.coin())
        gt = st + r.sign() * r.logrange(1e-2, 1);
      break;
    }
    case 2:
    {
      double D = R * r.logrange(10, r.coin(0.8) ? 100 : 800), a = r.range(-kPi, kPi);
      gx = sx + D * std::cos(a), gy = sy + D * std::sin(a), gt = gen_angle(r);
      break;
    }
    case 3:
    case 11:
    {
      double k0 = f.start == CURV_FREE ? sk : f.start == CURV_PM ? (sk < 0 ? -k : k) : 0.0;
      Controls w = gen_word(r, c.space, k, c.sigma(), k0);
      Pose p = ref_end(mk_state(sx, sy, st, sk), w);
      gx = p.x, gy = p.y, gt = p.th;
      if (f.goal == CURV_FREE && std::fabs(p.k) <= k)
        gk = p.k;
      if (f.goal == CURV_PM)
        gk = std::fabs(p.k) < 0.5 * k ? gk : (p.k > 0 ? k : -k);
      if (cls == 11)
      {
        double e = r.logrange(1e-8, 1e-2);
        gx += r.range(-e, e), gy += r.range(-e, e), gt += r.range(-e, e);
      }
      break;
    }
    case 4:
      sx = (r.below(9) - 4) * R, sy = (r.below(9) - 4) * R, st = (r.below(9) - 4) * kPi / 4;
      gx = (r.below(9) - 4) * R, gy = (r.below(9) - 4) * R, gt = (r.below(9) - 4) * kPi / 4;
      break;
    case 5:
      gx = sx, gy = sy, gt = gen_angle(r);
      break;
    case 6:
    case 7:
    {
      double D = r.sign() * R * r.logrange(1e-3, 20);
      if (cls == 6)
        gx = sx + D * std::cos(st), gy = sy + D * std::sin(st);
      else
        gx = sx - D * std::sin(st), gy = sy + D * std::cos(st);
      gt = st + (r.coin(0.3) ? 2 * kPi * (r.below(5) - 2) : 0.0);
      if (r.coin(0.3))
        gx += r.range(-4, 4) * R * std::cos(st), gy += r.range(-4, 4) * R * std::sin(st);
      break;
    }
    case 8:
      gx = sx, gy = sy, gt = st + (r.coin(0.3) ? 2 * kPi * (r.below(5) - 2) : 0.0);
      if (r.coin() && f.goal == f.start)
        gk = sk;
      break;
    case 9:
    {
      double e = r.logrange(1e-9, 3e-2);
      gx = sx + r.range(-e, e) * R, gy = sy + r.range(-e, e) * R, gt = st + r.range(-e, e);
      break;
    }
    case 12:
    case 13:
    {
      // centre of a turning circle of the start (either kind: plain arc, or the outer circle of a turn from zero
      // curvature) and a goal whose own turning circle has the same centre / which lies on that circle
      double xs, ys, xg, yg;
      turn_centre(c, r.coin(0.5), xs, ys);
      bool outer = r.coin(0.5);
      turn_centre(c, outer, xg, yg);
      double ls = r.sign(), fs = r.sign(), lg = cls == 12 ? r.sign() : ls, fg = cls == 12 ? r.sign() : -fs;
      double cx = sx + fs * xs * std::cos(st) - ls * ys * std::sin(st);
      double cy = sy + fs * xs * std::sin(st) + ls * ys * std::cos(st);
      gt = gen_angle(r);
      gx = cx - (fg * xg * std::cos(gt) - lg * yg * std::sin(gt));
      gy = cy - (fg * xg * std::sin(gt) + lg * yg * std::cos(gt));
      if (r.coin(0.3))
      {
        double e = r.logrange(1e-8, 1e-2);
        gx += r.range(-e, e), gy += r.range(-e, e);
      }
      break;
    }
    case 14:
    {
      // turning circles of the start and of the goal at one of the distances where a family of paths appears or
      // vanishes, or next to it
      if (f.start == CURV_FREE && r.coin(0.7))
        sk = r.coin() ? 0.0 : r.sign() * k;
      if (f.goal == CURV_FREE && r.coin(0.7))
        gk = r.coin() ? 0.0 : r.sign() * k;
      double x[2], y[2], l[2], h[2], ro, xo, yo;
      turn_centre(c, true, xo, yo);
      ro = std::hypot(xo, yo);
      for (int i = 0; i < 2; i++)
      {
        CurvMode m = i ? f.goal : f.start;
        double kk = i ? gk : sk;
        bool arc = f.cont == G1 || (m == CURV_ZERO ? false : m == CURV_PM ? true : kk != 0);
        if (r.coin(0.1))
          arc = !arc;
        turn_centre(c, !arc, x[i], y[i]);
        l[i] = (arc && kk != 0 && f.cont != G1 && r.coin(0.9)) ? (kk < 0 ? -1 : 1) : r.sign();
        h[i] = r.sign();
      }
      static const int co[][4] = { { 2, 0, 0, 0 }, { 0, 2, 0, 0 }, { 4, 0, 0, 0 }, { 0, 4, 0, 0 }, { 1, 1, 0, 0 }, { 2, 2, 0, 0 },
                                   { 2, -2, 0, 0 }, { 1, 3, 0, 0 }, { 0, 0, 2, 0 }, { 0, 0, 0, 2 }, { 0, 0, 4, 0 }, { 0, 0, 4, 2 },
                                   { 2, 0, 2, 0 }, { 0, 2, 0, 2 }, { 0, 2, 2, 0 }, { 2, 4, 0, 0 }, { 2, -4, 0, 0 }, { 0, 0, 2, 2 },
                                   { 0, 6, 0, 0 }, { 6, 0, 0, 0 }, { 2, 0, 0, 2 }, { 1, -1, 0, 0 } };
      const int *o = co[r.coin(0.4) ? r.below(2) : r.below(22)];
      double D = std::fabs(o[0] * ro + o[1] * R + o[2] * yo + o[3] * xo);
      if (r.coin(0.1))
        D = 2 * ro * std::sqrt(1 + 4 * xo * yo / (ro * ro) + (r.coin() ? 4 * yo * yo / (ro * ro) : 0.0));
      else if (r.coin(0.3))
        D = std::hypot(r.below(3) * xo, r.below(3) * yo + (r.below(9) - 4) * R);
      if (r.coin(0.75))
        D += r.sign() * (r.coin(0.5) ? r.logrange(1e-3, 3e-2) : r.logrange(1e-8, 1e-3));
      double cx = sx + h[0] * x[0] * std::cos(st) - l[0] * y[0] * std::sin(st);
      double cy = sy + h[0] * x[0] * std::sin(st) + l[0] * y[0] * std::cos(st);
      double a = gen_angle(r);
      gt = r.coin(0.8) ? gen_angle(r) : st + (r.below(9) - 4) * kPi / 4;
      gx = cx + D * std::cos(a) - (h[1] * x[1] * std::cos(gt) - l[1] * y[1] * std::sin(gt));
      gy = cy + D * std::sin(a) - (h[1] * x[1] * std::sin(gt) + l[1] * y[1] * std::cos(gt));
      break;
    }
    case 10:
    {
      double D = R * r.range(0, 8), a = r.range(-kPi, kPi);
      gx = sx + D * std::cos(a), gy = sy + D * std::sin(a), gt = st + kPi + (r.coin() ? r.range(-0.1, 0.1) : 0.0);
      break;
    }
  }
  c.v[F_SX] = sx, c.v[F_SY] = sy, c.v[F_ST] = st, c.v[F_SK] = sk;
  c.v[F_GX] = gx, c.v[F_GY] = gy, c.v[F_GT] = gt, c.v[F_GK] = gk;
  c.v[F_SD] = r.below(3) - 1;
  c.v[F_GD] = r.below(3) - 1;
}

bool domain_ok(const Case &c)
{
  for (int i = 0; i < F_E0 + c.nx; i++)
    if (!std::isfinite(c.v[i]))
      return false;
  double k = c.kappa(), s = c.sigma();
  if (c.space < 0 || c.space >= N_SPACES)
    return false;
  return k > 0 && s > 0 && c.disc() > 0;
}

void gen_query(Rng &r, Case &c)
{
  c.space = r.below(N_SPACES);
  gen_params(r, c);
  gen_states(r, c);
}

bool valid_query(const Case &c)
{
  if (!domain_ok(c))
    return false;
  double k = c.kappa(), s = c.sigma() / (k * k), R = 1 / k;
  if (k < 0.00999 || k > 8.001 || s < 0.0599 || s > 80.01)
    return false;
  if (c.disc() * k < 0.0099 || c.disc() * k > 5.001)
    return false;
  for (int i : { F_SX, F_SY, F_GX, F_GY })
    if (std::fabs(c.v[i]) > 2000 * R)
      return false;
  if (std::fabs(c.v[F_ST]) > 1100 || std::fabs(c.v[F_GT]) > 1100)
    return false;
  double q[2] = { c.v[F_SK], c.v[F_GK] };
  for (int i = 0; i < 2; i++)
  {
    if (std::fabs(q[i]) > k)
      return false;
  }
  return true;
}

void gen_free_controls(Rng &r, Case &c)
{
  c.x(0) = (double)(r.next() >> 12);
  c.x(1) = r.coin(0.97) ? 1 + r.below(6) : 7 + r.below(40);
}
Controls free_controls(const Case &c)
{
  Rng r((uint64_t)c.x(0));
  int n = std::max(1, std::min(60, (int)c.x(1)));
  Controls u;
  double k = c.kappa();
  bool g1 = is_g1(c.space);
  for (int i = 0; i < n; i++)
  {
    Control x;
    x.delta_s = r.sign() * r.logrange(1e-3, 5) / k;
    if (r.coin(0.1))
      x.delta_s = c.disc() * r.sign() * (1 + r.below(4));  // whole multiples of the discretization
    if (r.coin(0.05))
      x.delta_s = 0;
    int t = r.below(4);
    x.kappa = t == 0 ? 0.0 : t == 1 ? k * r.sign() : r.range(-k, k);
    if (!g1 && i > 0 && r.coin(0.6))
      x.kappa = k_end(u.back());
    if (g1)
      x.kappa = t == 0 ? 0.0 : r.sign() * k;
    x.sigma = 0;
    if (!g1 && r.coin(0.6))
      x.sigma = r.sign() * c.sigma() * (r.coin() ? 1.0 : r.logrange(1e-3, 1.0));
    // keep the curvature moderate
    if (std::fabs(k_end(x)) > 3 * k)
      x.sigma = 0;
    // stay clear of the library's resolution: tiny curvatures and tiny curvature jumps are treated as none
    if (x.kappa != 0 && std::fabs(x.kappa) < 1e-3)
      x.kappa = 0;
    if (i > 0 && x.kappa != k_end(u.back()) && std::fabs(x.kappa - k_end(u.back())) < 1e-3)
      x.kappa = k * (k_end(u.back()) > 0 ? -1 : 1);
    u.push_back(x);
  }
  return u;
}
}  // namespace vh
