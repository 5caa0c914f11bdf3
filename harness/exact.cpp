#include <algorithm>
#include <cstdarg>
#include "core.hpp"
namespace vh
{
// 12-point Gauss-Legendre
static const double GX[6] = { 0.1252334085114689, 0.3678314989981802, 0.5873179542866175,
                              0.7699026741943047, 0.9041172563704749, 0.9815606342467193 };
static const double GW[6] = { 0.2491470458134028, 0.2334925365383548, 0.2031674267230659,
                              0.1600783285433462, 0.1069393259953184, 0.0471753363865118 };

Pose ref_step(const Pose &p, double d, double sig, double len)
{
  Pose q = p;
  if (!(len > 0))
    return q;
  double kend = p.k + sig * len;
  double turn = std::max(std::fabs(p.k), std::fabs(kend)) * len;
  int n = 1 + (int)(turn / 1.0);
  if (n > 200000)
    n = 200000;
  double h = len / n;
  double sx = 0, sy = 0;
  for (int i = 0; i < n; i++)
  {
    double c = (i + 0.5) * h;
    for (int j = 0; j < 6; j++)
      for (int e = -1; e <= 1; e += 2)
      {
        double s = c + e * 0.5 * h * GX[j];
        double th = p.th + d * (p.k * s + 0.5 * sig * s * s);
        sx += GW[j] * std::cos(th);
        sy += GW[j] * std::sin(th);
      }
  }
  q.x = p.x + d * 0.5 * h * sx;
  q.y = p.y + d * 0.5 * h * sy;
  q.th = p.th + d * (p.k * len + 0.5 * sig * len * len);
  q.k = kend;
  return q;
}

Pose ref_end(const State &start, const Controls &c)
{
  Pose p = { start.x, start.y, start.theta, c.empty() ? start.kappa : c[0].kappa };
  for (auto &u : c)
  {
    p.k = u.kappa;
    p = ref_step(p, sgn1(u.delta_s), u.sigma, std::fabs(u.delta_s));
  }
  return p;
}

Pose ref_at(const State &start, const Controls &c, double s)
{
  Pose p = { start.x, start.y, start.theta, c.empty() ? start.kappa : c[0].kappa };
  for (auto &u : c)
  {
    double l = std::fabs(u.delta_s);
    p.k = u.kappa;
    if (s <= l)
      return ref_step(p, sgn1(u.delta_s), u.sigma, std::max(0.0, s));
    p = ref_step(p, sgn1(u.delta_s), u.sigma, l);
    s -= l;
  }
  return p;
}

static std::string vfmt(const char *fmt, va_list ap)
{
  char b[1024];
  vsnprintf(b, sizeof b, fmt, ap);
  return b;
}
#define VH_FAIL            \
  if (!ok)                 \
    return false;          \
  ok = false;              \
  va_list ap;              \
  va_start(ap, fmt);       \
  msg = vfmt(fmt, ap);     \
  va_end(ap);              \
  return false
bool Outcome::fail(const char *fmt, ...)
{
  VH_FAIL;
}
bool Outcome::expect(bool c, const char *fmt, ...)
{
  if (c)
    return true;
  VH_FAIL;
}
bool Outcome::within(const char *name, double err, double tol, const char *fmt, ...)
{
  double ratio = std::fabs(err) / tol;
  stats.push_back(std::make_pair(name, ratio));
  if (ratio <= 1.0)
    return true;
  VH_FAIL;
}
std::vector<Property> &registry()
{
  static std::vector<Property> r;
  return r;
}
}  // namespace vh
