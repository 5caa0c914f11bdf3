// Helpers shared by the path-level properties.
#pragma once
#include <algorithm>
#include "core.hpp"
namespace vh
{
const double kEps = 1e-4;  // the library's documented resolution: values closer than this are treated as equal

inline std::unique_ptr<Space> space_of(const Case &c)
{
  return make_space(c.space, c.kappa(), c.sigma(), c.disc());
}

// Coarse tolerances (always apply): the library snaps configurations that agree up to kEps (equal, aligned, on one
// circle), so a path may be off by a few kEps in heading and by kEps times its length in position.
inline double tol_pos(const Case &c, double L)
{
  // a clothoid of length kEps at the start or end that is dropped turns by kappa * kEps
  return kEps * (5 * (1 + 1 / c.kappa()) + std::max(5.0, 3 + 2.5 * c.kappa()) * L);
}
inline double tol_heading(const Case &c)
{
  return kEps * std::max(10.0, 3 + 2.5 * c.kappa());
}
inline double tol_curv(const Case &c)
{
  return 3 * kEps * (1 + c.sigma());
}
inline double tol_len(const Case &c, double L)
{
  // sharp clothoids turn a snap of kEps into a length of kEps / deflection
  return 5 * kEps * (1 + 1 / c.kappa()) * (1 + 0.5 * c.sigma() / (c.kappa() * c.kappa())) + 1e-9 * L;
}
// the spaces with arbitrary end curvatures drop an initial/final clothoid shorter than kEps
inline bool near_rest_curvature(const Case &c)
{
  for (int i : { F_SK, F_GK })
    if ((i == F_SK ? kInfo[c.space].start : kInfo[c.space].goal) == CURV_FREE)
    {
      double k = std::fabs(c.v[i]), lim = 1.01 * kEps * (1 + c.sigma());
      if ((k != 0 && k < lim) || (k != c.kappa() && c.kappa() - k < lim))
        return true;
    }
  return false;
}
// size of the numbers involved, for roundoff-level tolerances
inline double magnitude(const Case &c, double L)
{
  return 1 / c.kappa() + L + std::fabs(c.v[F_SX]) + std::fabs(c.v[F_SY]) + std::fabs(c.v[F_GX]) + std::fabs(c.v[F_GY]);
}

// a query next to c: moves start and goal a little, keeps the curvature semantics
inline Case neighbour(const Case &c, Rng &r, double scale)
{
  Case n = c;
  // at least a few times the resolution of the library
  double R = std::max(1 / c.kappa(), 4 * kEps / scale), K = std::max(c.kappa(), 4 * kEps / scale);
  n.v[F_SX] += r.range(-1, 1) * scale * R;
  n.v[F_SY] += r.range(-1, 1) * scale * R;
  n.v[F_ST] += r.range(-1, 1) * scale;
  n.v[F_GX] += r.range(-1, 1) * scale * R;
  n.v[F_GY] += r.range(-1, 1) * scale * R;
  n.v[F_GT] += r.range(-1, 1) * scale;
  for (int i : { F_SK, F_GK })
    if ((i == F_SK ? kInfo[c.space].start : kInfo[c.space].goal) == CURV_FREE)
    {
      double k = c.v[i] + r.range(-1, 1) * std::min(scale * K, 0.5 * c.kappa());
      n.v[i] = std::fabs(k) > c.kappa() ? 2 * sgn1(k) * c.kappa() - k : k;
    }
  return n;
}

// Does `bad` persist around the query? Near a decision threshold of the library (kEps snapping, a path family that
// starts or stops to exist) a single query says nothing; a defect shows in most neighbours as well.
template <class F>
bool persists(const Case &c, F bad, double scale = 0.02, int n = 9, int need = 7)
{
  Rng r(0x5eedULL ^ (uint64_t)(int64_t)(c.v[F_GX] * 1e6) ^ ((uint64_t)(int64_t)(c.v[F_GT] * 1e6) << 20));
  int b = 0;
  for (int i = 0; i < n; i++)
  {
    double s = i % 3 == 0 ? scale : i % 3 == 1 ? scale / 10 : scale * 3;
    if (bad(neighbour(c, r, s)))
      b++;
    if (b + (n - 1 - i) < need)
      return false;
  }
  return b >= need;
}

// Does `bad` persist next to the query, well below the resolution of the library but well above rounding? For relations that
// hold on both sides of every threshold of the library, i.e. comparisons with witnesses that have the same resolution.
template <class F>
bool persists_nearby(const Case &c, F bad)
{
  Rng r(0xfeedULL ^ (uint64_t)(int64_t)(c.v[F_GX] * 1e6) ^ ((uint64_t)(int64_t)(c.v[F_GT] * 1e6) << 20));
  double R = 1 / c.kappa();
  for (int i = 0, miss = 0; i < 9; i++)
  {
    Case n = c;
    double e = i % 2 ? 1e-7 : 1e-8;
    for (int f : { F_SX, F_SY, F_GX, F_GY })
      n.v[f] += r.range(-1, 1) * e * R;
    n.v[F_ST] += r.range(-1, 1) * e;
    n.v[F_GT] += r.range(-1, 1) * e;
    if (!bad(n) && ++miss > 1)
      return false;
  }
  return true;
}

// shape of a path: turn and direction of every part, e.g. L+S+R- (parts shorter than 1e-6/kappa are dropped)
inline std::string signature(const Case &c, const Controls &u)
{
  std::string s;
  char last[3] = { 0, 0, 0 };
  for (auto &x : u)
  {
    if (std::fabs(x.delta_s) * c.kappa() < 1e-6)
      continue;
    double km = x.kappa + 0.5 * x.sigma * std::fabs(x.delta_s);
    char t = std::fabs(km) < 1e-9 ? 'S' : km > 0 ? 'L' : 'R';
    char d = x.delta_s < 0 ? '-' : '+';
    if (t == last[0] && d == last[1])
      continue;
    last[0] = t, last[1] = d;
    s += last;
  }
  return s.empty() ? "E" : s;
}

inline bool all_finite(const Controls &u)
{
  for (auto &x : u)
    if (!std::isfinite(x.delta_s) || !std::isfinite(x.kappa) || !std::isfinite(x.sigma))
      return false;
  return true;
}
inline double k_end(const Control &u)
{
  return u.kappa + u.sigma * std::fabs(u.delta_s);
}

void gen_query(Rng &r, Case &c);             // any space
bool valid_query(const Case &c);             // the domain the path properties quantify over
void gen_free_controls(Rng &r, Case &c);     // stores the seed of a random control sequence in the extras
Controls free_controls(const Case &c);       // rebuilds it

// validity of a path as such, used for witnesses: reaches the goal, obeys bounds, direction, continuity, end curvatures
// a witness that exploits the resolution of the library (snapped tangencies) is shorter than an exact path by a multiple of its error
const double kWitness = 2e-8;
bool witness_ok(const Case &c, const Controls &u, double slack, std::string *why);
}  // namespace vh
