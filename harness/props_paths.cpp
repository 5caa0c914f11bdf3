// Properties of a single path: goal, end curvatures, bounds, continuity, direction, length, sampling, interpolation.
#include "util.hpp"
namespace vh
{
static void classify(const Case &c, const Controls &u, Outcome &o)
{
  o.label(std::string("space:") + kInfo[c.space].name);
  o.label(std::string("class:") + class_name(c.cls));
  o.label(std::string("word:") + kInfo[c.space].name + ":" + signature(c, u));
  int parts = 0;
  for (auto &x : u)
    if (std::fabs(x.delta_s) * c.kappa() > 1e-3)
      parts++;
  o.nontrivial = parts >= 2;
}
#define NONTRIVIAL "non-trivial = the returned path has at least two parts longer than 0.001/kappa"
#define QUERY                                                                                                         \
  "19 state spaces; kappa in [0.01,8], sigma/kappa^2 in [0.06,80]; start/goal drawn from 15 classes (uniform, near, far, " \
  "end of a random feasible drive, lattice, collinear, parallel, concentric or touching turning circles, almost equal, ...); "

// ------------------------------------------------------------------------------------------------ goal is reached
struct EndErr
{
  double pos, head;
};
static EndErr end_error(const Case &c, const Controls &u)
{
  Pose e = ref_end(c.start(), u);
  State g = c.goal();
  return { std::hypot(e.x - g.x, e.y - g.y), angdiff(e.th, g.theta) };
}
static void eval_goal(const Case &c, Outcome &o)
{
  auto s = space_of(c);
  Controls u = s->controls(c.start(), c.goal());
  if (!o.expect(!u.empty() && all_finite(u), "controls are empty or not finite"))
    return;
  classify(c, u, o);
  double L = total_length(u);
  EndErr e = end_error(c, u);
  o.within("position", e.pos, tol_pos(c, L), "%s: path ends %.6g from the goal position (length %.6g)",
           kInfo[c.space].name, e.pos, L);
  o.within("heading", e.head, tol_heading(c), "%s: path ends %.6g rad off the goal heading", kInfo[c.space].name, e.head);
  auto coarse = [&](const EndErr &e, double L) {
    return e.pos > 1e-7 * magnitude(c, L) || e.head > 1e-7 * (1 + L * c.kappa());
  };
  if (o.ok && coarse(e, L))
  {
    o.label("snapped");
    auto bad = [&](const Case &n) {
      if (near_rest_curvature(n))
        return false;
      Controls v = space_of(n)->controls(n.start(), n.goal());
      return coarse(end_error(n, v), total_length(v));
    };
    o.expect(!persists(c, bad), "%s: path ends %.6g m / %.6g rad off the goal, and so do the paths to nearby goals",
             kInfo[c.space].name, e.pos, e.head);
  }
  // the sampled path as the user sees it
  Path p = s->path(c.start(), c.goal());
  if (!o.expect(!p.empty(), "get_path returned no states"))
    return;
  State a = p.front(), b = p.back(), st = c.start(), g = c.goal();
  o.within("path_start", std::hypot(a.x - st.x, a.y - st.y) + angdiff(a.theta, st.theta), 1e-9 * (1 + magnitude(c, 0)),
           "%s: sampled path does not begin at the start", kInfo[c.space].name);
  double pe = std::hypot(b.x - g.x, b.y - g.y), he = angdiff(b.theta, g.theta);
  o.within("path_position", pe, tol_pos(c, L), "%s: last sampled state is %.6g from the goal position",
           kInfo[c.space].name, pe);
  o.within("path_heading", he, tol_heading(c), "%s: last sampled state is %.6g rad off the goal heading",
           kInfo[c.space].name, he);
}
static Registrar r_goal({ "goal_reached", QUERY NONTRIVIAL, gen_query, eval_goal, valid_query, 900000, 20000000 });

// ------------------------------------------------------------------------------------------------ end curvatures
static void curv_end(const Case &c, CurvMode m, double want, double have, const char *what, double tol, Outcome &o)
{
  double k = c.kappa();
  const char *n = kInfo[c.space].name;
  switch (m)
  {
    case CURV_NONE:
      break;
    case CURV_ZERO:
      o.within(what, have, tol, "%s: %s curvature is %.9g instead of 0", n, what, have);
      break;
    case CURV_PM:
      o.within(what, std::fabs(have) - k, tol, "%s: %s curvature is %.9g instead of +-%.9g", n, what, have, k);
      if (want != 0)
        o.within(what, have - (want > 0 ? k : -k), tol, "%s: %s curvature is %.9g instead of %.9g", n, what, have,
                 want > 0 ? k : -k);
      break;
    case CURV_FREE:
      o.within(what, have - want, tol, "%s: %s curvature is %.9g instead of %.9g", n, what, have, want);
      break;
  }
}
static void curv_ends(const Case &c, const Controls &u, double tol, Outcome &o)
{
  const SpaceInfo &f = kInfo[c.space];
  curv_end(c, f.start, c.v[F_SK], u.front().kappa, "start", tol, o);
  curv_end(c, f.goal, c.v[F_GK], k_end(u.back()), "end", tol, o);
}
static void eval_endcurv(const Case &c, Outcome &o)
{
  auto s = space_of(c);
  Controls u = s->controls(c.start(), c.goal());
  if (!o.expect(!u.empty() && all_finite(u), "controls are empty or not finite"))
    return;
  classify(c, u, o);
  curv_ends(c, u, tol_curv(c), o);
  auto fine = [](const Case &n, const Controls &v) {
    Outcome q;
    curv_ends(n, v, 1e-7 * n.kappa(), q);
    return q.ok;
  };
  if (o.ok && !fine(c, u))
  {
    o.label("snapped");
    o.expect(!persists(c,
                       [&](const Case &n) {
                         if (near_rest_curvature(n))
                           return false;
                         Controls v = space_of(n)->controls(n.start(), n.goal());
                         return v.empty() || !fine(n, v);
                       }),
             "%s: end curvatures are imprecise here and on nearby queries", kInfo[c.space].name);
  }
  Path p = s->path(c.start(), c.goal());
  if (!o.expect(!p.empty(), "get_path returned no states"))
    return;
  curv_end(c, kInfo[c.space].start, c.v[F_SK], p.front().kappa, "first sampled", tol_curv(c), o);
  curv_end(c, kInfo[c.space].goal, c.v[F_GK], p.back().kappa, "last sampled", tol_curv(c), o);
}
static void gen_curved_query(Rng &r, Case &c)
{
  do
    c.space = r.below(N_SPACES);
  while (is_g1(c.space));
  if (r.coin(0.35))
  {
    static const int free_spaces[] = { CC_D_F, CC_D_B, HC_RS };
    c.space = free_spaces[r.below(3)];
  }
  gen_params(r, c);
  gen_states(r, c);
}
static Registrar r_endc({ "endpoint_curvature", QUERY "only the 16 continuous-curvature spaces; " NONTRIVIAL,
                          gen_curved_query, eval_endcurv, valid_query, 900000, 20000000 });

// ------------------------------------------------------------------------------------------------ bounds
static double bound_excess(const Case &c, const Controls &u, double &sex)
{
  double k = c.kappa(), kex = 0;
  sex = 0;
  for (auto &x : u)
  {
    kex = std::max(kex, std::max(std::fabs(x.kappa), std::fabs(k_end(x))) - k);
    if (!is_g1(c.space))
      sex = std::max(sex, std::fabs(x.sigma) - c.sigma());
  }
  return kex;
}
static void eval_bounds(const Case &c, Outcome &o)
{
  auto s = space_of(c);
  const char *n = kInfo[c.space].name;
  Controls u = s->controls(c.start(), c.goal());
  if (!o.expect(!u.empty() && all_finite(u), "controls are empty or not finite"))
    return;
  classify(c, u, o);
  double k = c.kappa(), sex, kex = bound_excess(c, u, sex);
  o.within("curvature", kex, tol_curv(c), "%s: curvature exceeds kappa=%.9g by %.6g", n, k, kex);
  if (is_g1(c.space))
  {
    for (auto &x : u)
    {
      double a = std::fabs(x.kappa);
      o.expect(x.sigma == 0, "%s: a segment has non-zero sharpness %.6g", n, x.sigma);
      o.within("curvature_set", std::min(a, std::fabs(a - k)), 1e-9 * k, "%s: segment curvature %.9g is neither 0 nor +-%.9g",
               n, x.kappa, k);
    }
  }
  else
    o.within("sharpness", sex, 1e-2 * c.sigma(), "%s: sharpness exceeds sigma=%.9g by %.6g", n, c.sigma(), sex);
  auto coarse = [](const Case &q, const Controls &v) {
    double sx, kx = bound_excess(q, v, sx);
    return kx > 1e-7 * q.kappa() || sx > 1e-6 * q.sigma();
  };
  if (o.ok && coarse(c, u))
  {
    o.label("snapped");
    o.expect(!persists(c,
                       [&](const Case &q) {
                         return coarse(q, space_of(q)->controls(q.start(), q.goal()));
                       }),
             "%s: bounds exceeded (curvature by %.6g, sharpness by %.6g), here and on nearby queries", n, kex, sex);
  }
  for (auto &q : s->path(c.start(), c.goal()))
    o.within("sampled_curvature", std::fabs(q.kappa) - k < 0 ? 0 : std::fabs(q.kappa) - k, tol_curv(c),
             "%s: sampled state has curvature %.9g > kappa=%.9g", n, q.kappa, k);
}
static Registrar r_bounds({ "curvature_bounds", QUERY NONTRIVIAL, gen_query, eval_bounds, valid_query, 900000, 20000000 });

// ------------------------------------------------------------------------------------------------ continuity
// largest curvature jump between adjoining segments where the space does not allow one
static double worst_jump(const Case &c, const Controls &u)
{
  double tiny = 1e-6 / c.kappa(), w = 0;
  // drop degenerate segments: a segment of (nearly) no length has no curvature profile of its own
  std::vector<Control> v;
  std::vector<bool> gap;  // a degenerate segment was dropped before this one
  bool dropped = false;
  for (auto &x : u)
    if (std::fabs(x.delta_s) > tiny)
    {
      v.push_back(x);
      gap.push_back(dropped);
      dropped = false;
    }
    else
      dropped = true;
  for (size_t i = 1; i < v.size(); i++)
  {
    bool cusp = (v[i].delta_s < 0) != (v[i - 1].delta_s < 0);
    if (kInfo[c.space].cont == HC && (cusp || gap[i]))
      continue;
    w = std::max(w, std::fabs(v[i].kappa - k_end(v[i - 1])));
  }
  return w;
}
static void eval_cont(const Case &c, Outcome &o)
{
  auto s = space_of(c);
  const char *n = kInfo[c.space].name;
  Controls u = s->controls(c.start(), c.goal());
  if (!o.expect(!u.empty() && all_finite(u), "controls are empty or not finite"))
    return;
  classify(c, u, o);
  double w = worst_jump(c, u);
  o.within("jump", w, tol_curv(c), "%s: curvature jumps by %.6g %s", n, w,
           kInfo[c.space].cont == HC ? "away from a cusp" : "");
  if (o.ok && w > 1e-7 * c.kappa())
  {
    o.label("snapped");
    o.expect(!persists(c,
                       [&](const Case &q) {
                         return worst_jump(q, space_of(q)->controls(q.start(), q.goal())) > 1e-7 * q.kappa();
                       }),
             "%s: curvature jumps by %.6g here and on nearby queries", n, w);
  }
  // sampled path: between neighbouring samples the curvature changes by at most sigma times the distance travelled
  Path p = s->path(c.start(), c.goal());
  double tiny = 1e-6 / c.kappa();
  for (size_t i = 1; i < p.size() && o.ok; i++)
  {
    double step = std::hypot(p[i].x - p[i - 1].x, p[i].y - p[i - 1].y);
    double turn = angdiff(p[i].theta, p[i - 1].theta);
    // heading is continuous everywhere, including cusps
    o.within("heading_step", turn, c.kappa() * std::max(step, std::min(c.disc(), 1e9)) * 1.01 + 10 * kEps,
             "%s: heading jumps by %.6g rad between neighbouring samples", n, turn);
    o.expect(step <= c.disc() * (1 + 1e-6) + 1e-9, "%s: neighbouring samples are %.6g apart (discretization %.6g)", n,
             step, c.disc());
    bool reversal = p[i].d != p[i - 1].d;
    double dk = std::fabs(p[i].kappa - p[i - 1].kappa);
    if (kInfo[c.space].cont == CC || !reversal)
      if (step > tiny || dk > tol_curv(c))
      {
        // a jump at (nearly) zero distance is only allowed where the driving direction changes
        double reach = c.sigma() * c.disc() * 1.01;
        if (step < tiny)
          reach = c.sigma() * 10 * tiny;
        bool degenerate = false;
        if (kInfo[c.space].cont == HC)
        {
          // a segment of no length next to a cusp carries no direction of its own
          for (auto &x : u)
            degenerate |= std::fabs(x.delta_s) <= tiny;
          degenerate |= i + 1 < p.size() && p[i + 1].d != p[i].d;
        }
        if (!degenerate)
          o.within("sampled_jump", dk, reach + tol_curv(c), "%s: sampled curvature changes by %.6g over %.6g m", n, dk, step);
      }
  }
}
static Registrar r_cont({ "curvature_continuity", QUERY "only the 16 continuous-curvature spaces; " NONTRIVIAL,
                          gen_curved_query, eval_cont, valid_query, 700000, 16000000 });

// ------------------------------------------------------------------------------------------------ driving direction
static void eval_dir(const Case &c, Outcome &o)
{
  auto s = space_of(c);
  const char *n = kInfo[c.space].name;
  Controls u = s->controls(c.start(), c.goal());
  if (!o.expect(!u.empty() && all_finite(u), "controls are empty or not finite"))
    return;
  classify(c, u, o);
  int dir = kInfo[c.space].dir;
  double tiny = 1e-6 / c.kappa();
  if (dir)
    for (auto &x : u)
      o.within("wrong_way", std::max(0.0, -dir * x.delta_s), 1e-9 / c.kappa(), "%s: a segment drives %.9g the wrong way", n,
               x.delta_s);
  // functions with a driving direction go forwards unless told otherwise
  if (dir > 0 && std::fmod(std::fabs(c.v[F_GX]) * 65536, 8) < 1)
  {
    o.label("default_direction");
    for (auto &x : make_space_default(c.space, c.kappa(), c.sigma())->controls(c.start(), c.goal()))
      o.within("wrong_way_default", std::max(0.0, -x.delta_s), 1e-9 / c.kappa(), "%s: without a configured direction a segment drives %.9g the wrong way",
               n, x.delta_s);
  }
  // sampled states: d is -1 or 1 and tells the direction of the motion that leads to the state
  Path p = s->path(c.start(), c.goal());
  for (size_t i = 0; i < p.size() && o.ok; i++)
  {
    o.expect(p[i].d == 1.0 || p[i].d == -1.0, "%s: state with driving direction %.6g", n, p[i].d);
    if (i == 0)
    {
      // nothing leads to the first state: it notes the direction of the motion that leaves it
      if (std::fabs(u[0].delta_s) > tiny)
        o.expect((u[0].delta_s > 0) == (p[0].d > 0), "%s: the first state has d=%g but the path starts %s", n, p[0].d,
                 u[0].delta_s > 0 ? "forwards" : "backwards");
      continue;
    }
    double dx = p[i].x - p[i - 1].x, dy = p[i].y - p[i - 1].y, step = std::hypot(dx, dy);
    double turn = angdiff(p[i].theta, p[i - 1].theta);
    if (step < tiny || turn > 2.0 || c.disc() * c.kappa() > 2.0)
      continue;
    double mid = p[i - 1].theta + 0.5 * wrap(p[i].theta - p[i - 1].theta);
    double along = dx * std::cos(mid) + dy * std::sin(mid);
    if (std::fabs(along) < 0.2 * step)
      continue;
    o.expect((along > 0) == (p[i].d > 0), "%s: state %zu has d=%g but the motion is %s", n, i, p[i].d,
             along > 0 ? "forwards" : "backwards");
    if (dir)
      o.expect((along > 0) == (dir > 0), "%s: sampled path drives %s", n, along > 0 ? "forwards" : "backwards");
  }
  for (auto &x : u)
    if (x.delta_s < -tiny)
    {
      o.label("has_backward_segment");
      break;
    }
}
static Registrar r_dir({ "driving_direction", QUERY NONTRIVIAL, gen_query, eval_dir, valid_query, 900000, 20000000 });

// ------------------------------------------------------------------------------------------------ length
static void eval_len(const Case &c, Outcome &o)
{
  auto s = space_of(c);
  const char *n = kInfo[c.space].name;
  State a = c.start(), b = c.goal();
  double d = s->distance(a, b);
  Controls u = s->controls(a, b);
  if (!o.expect(!u.empty() && all_finite(u), "controls are empty or not finite"))
    return;
  classify(c, u, o);
  double L = total_length(u);
  o.expect(std::isfinite(d) && d >= 0, "%s: distance is %.9g", n, d);
  o.within("length", d - L, tol_len(c, L), "%s: distance %.9g but the controls have length %.9g", n, d, L);
  if (o.ok && std::fabs(d - L) > 1e-7 * (L + 1 / c.kappa()))
  {
    o.label("snapped");
    o.expect(!persists(c,
                       [&](const Case &q) {
                         auto t = space_of(q);
                         double l = total_length(t->controls(q.start(), q.goal()));
                         return std::fabs(t->distance(q.start(), q.goal()) - l) > 1e-7 * (l + 1 / q.kappa());
                       }),
             "%s: distance %.12g differs from the length of the controls %.12g, here and nearby", n, d, L);
  }
  double eu = std::hypot(b.x - a.x, b.y - a.y);
  o.within("euclid", std::max(0.0, eu - d), tol_pos(c, L), "%s: distance %.9g is below the Euclidean distance %.9g", n, d, eu);
  // length of the sampled path: chords are shorter than arcs, by at most (kappa ds)^2/24 relatively
  Path p = s->path(a, b);
  double chord = 0;
  for (size_t i = 1; i < p.size(); i++)
    chord += std::hypot(p[i].x - p[i - 1].x, p[i].y - p[i - 1].y);
  double ds = std::min(c.disc(), 1e9) * c.kappa();
  o.within("chord_long", std::max(0.0, chord - d), tol_len(c, L), "%s: sampled path is longer (%.9g) than the distance (%.9g)",
           n, chord, d);
  o.within("chord_short", std::max(0.0, d - chord), tol_len(c, L) + L * ds * ds / 23,
           "%s: sampled path is shorter (%.9g) than the distance (%.9g)", n, chord, d);
}
static Registrar r_len({ "distance_is_length", QUERY NONTRIVIAL, gen_query, eval_len, valid_query, 800000, 16000000 });

// ------------------------------------------------------------------------------------------------ equal states
static bool same_curv_space(int id)
{
  return kInfo[id].start == kInfo[id].goal;
}
static void gen_equal(Rng &r, Case &c)
{
  do
    c.space = r.below(N_SPACES);
  while (!same_curv_space(c.space));
  gen_params(r, c);
  gen_states(r, c);
  int m = r.below(4);
  double R = 1 / c.kappa();
  c.cls = 8;
  c.v[F_GX] = c.v[F_SX], c.v[F_GY] = c.v[F_SY], c.v[F_GT] = c.v[F_ST];
  if (kInfo[c.space].start != CURV_FREE && kInfo[c.space].start != CURV_PM)
    c.v[F_SK] = c.v[F_GK] = 0;
  c.v[F_GK] = c.v[F_SK];
  if (m == 1)
    c.v[F_GT] += 2 * kPi * (r.below(7) - 3);
  if (m == 2)
  {  // headings next to the wrap-around
    double e = r.logrange(1e-17, 1e-6) * r.sign();
    c.v[F_ST] = (r.below(5) - 2) * kPi + e;
    c.v[F_GT] = c.v[F_ST] + (r.coin() ? 0 : 2 * kPi * (r.below(3) - 1));
  }
  if (m == 3)
  {
    c.v[F_SX] = c.v[F_GX] = r.range(-50, 50) * R;
    c.v[F_ST] = c.v[F_GT] = r.range(-30, 30);
  }
}
static bool valid_equal(const Case &c)
{
  if (c.v[F_SX] != c.v[F_GX] || c.v[F_SY] != c.v[F_GY] || c.v[F_SK] != c.v[F_GK] || kInfo[c.space].start != kInfo[c.space].goal)
    return false;
  double t = (c.v[F_GT] - c.v[F_ST]) / (2 * kPi);
  return valid_query(c) && std::fabs(t - std::round(t)) < 1e-12;
}
static void eval_equal(const Case &c0, Outcome &o)
{
  const Case &c = c0;
  auto s = space_of(c);
  const char *n = kInfo[c.space].name;
  State a = c.start(), b = c.goal();
  double d0 = s->distance(a, b);
  // identical states (up to full turns of the heading): the path is empty
  double tol = 1e-3 / c.kappa();
  o.label(std::string("space:") + n);
  o.nontrivial = true;
  o.within("zero", d0, tol, "%s: distance from a state to itself is %.9g", n, d0);
  Controls u = s->controls(a, b);
  if (!o.expect(!u.empty() && all_finite(u), "controls are empty or not finite"))
    return;
  o.within("zero_controls", total_length(u), tol, "%s: path from a state to itself has length %.9g", n, total_length(u));
  if (kInfo[c.space].start != CURV_NONE)
  {
    o.within("zero_curv", std::fabs(k_end(u.back())) - std::fabs(kInfo[c.space].start == CURV_ZERO ? 0 : kInfo[c.space].start == CURV_PM ? c.kappa() : a.kappa), tol_curv(c),
             "%s: empty path has curvature %.9g", n, k_end(u.back()));
  }
  Path q = s->path(a, b);
  if (!o.expect(!q.empty(), "%s: path from a state to itself has no states", n))
    return;
  for (auto &x : q)
    o.within("zero_path", std::hypot(x.x - a.x, x.y - a.y), tol, "%s: path from a state to itself leaves it", n);
}
static Registrar r_eq({ "start_equals_goal", "start = goal up to whole turns of the heading, all spaces whose start and goal curvature "
                                   "classes agree, headings around the wrap-around included; every case is non-trivial",
                        gen_equal, eval_equal, valid_equal, 600000, 10000000 });

// ------------------------------------------------------------------------------------------------ sampling
// expected samples: every segment is cut into steps of the discretization, its end is sampled
struct Exp
{
  Pose p;
  double d;
  double arc;
  double step;
};
static std::vector<Exp> expected_samples(const State &st, const Controls &u, double disc)
{
  std::vector<Exp> m;
  Pose p = { st.x, st.y, st.theta, u[0].kappa };
  double s0 = 0;
  m.push_back({ p, sgn1(u[0].delta_s), 0.0, 0.0 });
  for (size_t j = 0; j < u.size(); j++)
  {
    double len = std::fabs(u[j].delta_s), d = sgn1(u[j].delta_s);
    p.k = u[j].kappa;
    Pose q = p;
    double s = 0;
    while (s < len * (1 - 1e-12) - 1e-15)
    {
      double t = std::min(disc, len - s);
      if (len - s - t < 1e-11 * (1 + len))
        t = len - s;
      q = ref_step(q, d, u[j].sigma, t);
      s += t;
      m.push_back({ q, d, s0 + s, t });
    }
    p = ref_step(p, d, u[j].sigma, len);
    s0 += len;
  }
  return m;
}
static void check_samples(const Case &c, const State &st, const Controls &u, const Path &S, Outcome &o)
{
  const char *n = kInfo[c.space].name;
  double L = total_length(u);
  std::vector<Exp> M = expected_samples(st, u, c.disc());
  double tp = 1e-6 * (1 / c.kappa() + L) + 1e-9 * magnitude(c, 0), th = 1e-6 * (1 + L * c.kappa()), tk = 1e-6 * c.kappa() + kEps;
  auto pose_ok = [&](const State &a, const Pose &b) {
    return std::hypot(a.x - b.x, a.y - b.y) <= tp && angdiff(a.theta, b.th) <= th;
  };
  // curvature/direction of sample j: those of a segment that contains its arc length (both sides at a boundary)
  double slack = 1e-7 * (1 / c.kappa() + L);
  auto kd_ok = [&](const State &a, size_t j) {
    double arc = M[j].arc, s0 = 0;
    for (auto &v : u)
    {
      double l = std::fabs(v.delta_s);
      if (arc >= s0 - slack && arc <= s0 + l + slack)
      {
        double k = v.kappa + v.sigma * std::min(l, std::max(0.0, arc - s0));
        if (std::fabs(a.kappa - k) <= tk && (a.d == sgn1(v.delta_s) || l < slack))
          return true;
      }
      s0 += l;
    }
    return false;
  };
  size_t j = 0;
  if (!o.expect(!S.empty(), "%s: no samples", n))
    return;
  if (!o.expect(pose_ok(S[0], M[0].p), "%s: first sample is not the start state", n))
    return;
  if (!o.expect(kd_ok(S[0], 0), "%s: first sample has curvature %.9g, direction %g", n, S[0].kappa, S[0].d))
    return;
  for (size_t i = 1; i < S.size(); i++)
  {
    if (j + 1 < M.size() && pose_ok(S[i], M[j + 1].p) && kd_ok(S[i], j + 1))
    {
      j++;
      continue;
    }
    // expected steps of (nearly) no length may be left out
    bool found = false;
    for (size_t q = j + 1; q + 1 < M.size() && M[q].step < 1e-6 / c.kappa(); q++)
      if (pose_ok(S[i], M[q + 1].p) && kd_ok(S[i], q + 1))
      {
        j = q + 1;
        found = true;
        break;
      }
    if (found)
      continue;
    if (pose_ok(S[i], M[j].p) && kd_ok(S[i], j))
      continue;  // repeated state where a new segment begins
    size_t q = std::min(j + 1, M.size() - 1);
    o.fail("%s: sample %zu (%.9g,%.9g,%.9g k=%.9g d=%g) should be (%.9g,%.9g,%.9g k=%.9g d=%g)", n, i, S[i].x, S[i].y,
           S[i].theta, S[i].kappa, S[i].d, M[q].p.x, M[q].p.y, wrap(M[q].p.th), M[q].p.k, M[q].d);
    return;
  }
  while (j + 1 < M.size() && M[j + 1].step < 1e-6 / c.kappa())
    j++;
  o.expect(j + 1 == M.size(), "%s: path stops after %zu of %zu samples", n, j + 1, M.size());
  // a segment may begin and end with a repeated state (the latter when its length is a multiple of the step up to rounding)
  o.expect(S.size() <= M.size() + 2 * u.size() + 1, "%s: %zu samples where at most %zu are expected", n, S.size(),
           M.size() + 2 * u.size() + 1);
}
static void gen_sampling(Rng &r, Case &c)
{
  gen_query(r, c);
  if (c.cls == 2)
    c.v[F_DISC] = r.logrange(0.2, 5.0) / c.kappa();
  else if (r.coin(0.1))
    c.v[F_DISC] = r.logrange(0.01, 0.05) / c.kappa();
  if (r.coin(0.0003))
  {
    // a path of tens of thousands of states
    double D = r.range(400, 1000) / c.kappa(), a = r.range(-kPi, kPi);
    c.v[F_GX] = c.v[F_SX] + D * std::cos(a), c.v[F_GY] = c.v[F_SY] + D * std::sin(a);
    c.v[F_DISC] = r.range(0.01, 0.015) / c.kappa();
  }
  gen_free_controls(r, c);
  c.x(2) = r.below(3);  // 0,1: path of the space; 2: free controls
}
static bool valid_sampling(const Case &c)
{
  return valid_query(c) && c.x(1) >= 1 && c.x(1) <= 60 && c.x(0) >= 0;
}
static void eval_sampling(const Case &c, Outcome &o)
{
  auto s = space_of(c);
  State a = c.start(), b = c.goal();
  if (c.x(2) >= 2)
  {
    Controls u = free_controls(c);
    o.label(std::string("free:") + kInfo[c.space].name);
    o.nontrivial = u.size() >= 2;
    check_samples(c, a, u, s->integrate(a, u), o);
    return;
  }
  Controls u = s->controls(a, b);
  if (!o.expect(!u.empty() && all_finite(u), "controls are empty or not finite"))
    return;
  classify(c, u, o);
  Path p = s->path(a, b);
  check_samples(c, a, u, p, o);
  // integrating the returned controls gives the returned path
  Path q = s->integrate(a, u);
  if (!o.expect(p.size() == q.size(), "%s: path has %zu states, integrating its controls gives %zu", kInfo[c.space].name,
                p.size(), q.size()))
    return;
  for (size_t i = 0; i < p.size(); i++)
    o.within("path_vs_integrate",
             std::fabs(p[i].x - q[i].x) + std::fabs(p[i].y - q[i].y) + angdiff(p[i].theta, q[i].theta) +
                 std::fabs(p[i].kappa - q[i].kappa) + std::fabs(p[i].d - q[i].d),
             1e-9 * (1 + magnitude(c, 0)), "%s: path and integrated controls differ at state %zu", kInfo[c.space].name, i);
  // the discretization only affects the sampling, not the path
  auto s2 = make_space(c.space, c.kappa(), c.sigma(), c.disc() * 1.7);
  double d1 = s->distance(a, b), d2 = s2->distance(a, b);
  o.within("disc_independent", d1 - d2, 1e-9 * (1 + d1), "%s: distance depends on the discretization (%.12g, %.12g)",
           kInfo[c.space].name, d1, d2);
  // without a step size: 0.1
  std::unique_ptr<Space> s3;
  if ((uint64_t)c.x(0) % 16 == 0 && d1 < 1000)
    s3 = make_space_default(c.space, c.kappa(), c.sigma());
  if (s3)
  {
    o.label("default_step");
    Case e = c;
    e.v[F_DISC] = 0.1;
    check_samples(e, a, u, s3->path(a, b), o);
  }
}
static Registrar r_samp({ "path_sampling", QUERY "paths of the spaces and free random control sequences; " NONTRIVIAL
                                                 " (free sequences: at least two segments)",
                          gen_sampling, eval_sampling, valid_sampling, 220000, 5000000 });

// ------------------------------------------------------------------------------------------------ interpolation
static void check_interp(const Case &c, const Space &s, const State &a, const Controls &u, double t, Outcome &o)
{
  const char *n = kInfo[c.space].name;
  double L = total_length(u);
  double tc = std::min(1.0, std::max(0.0, t)), arc = tc * L;
  State x = s.interpolate(a, u, t);
  Pose p = ref_at(a, u, arc);
  double tp = 1e-6 * (1 / c.kappa() + L) + 1e-9 * magnitude(c, 0), th = 1e-6 * (1 + L * c.kappa()), tk = 1e-6 * c.kappa() + kEps;
  double pe = std::hypot(x.x - p.x, x.y - p.y), he = angdiff(x.theta, p.th);
  if (!o.within("position", pe, tp, "%s: state at t=%.17g is %.6g off the path point at that arc length", n, t, pe))
    return;
  if (!o.within("heading", he, th, "%s: heading at t=%.17g is off by %.6g", n, t, he))
    return;
  // curvature and direction: those of a segment that contains the arc length (up to roundoff)
  double s0 = 0, slack = 1e-7 * (1 / c.kappa() + L);
  bool ok = false;
  for (auto &v : u)
  {
    double l = std::fabs(v.delta_s);
    if (arc >= s0 - slack && arc <= s0 + l + slack)
    {
      double k = v.kappa + v.sigma * std::min(l, std::max(0.0, arc - s0));
      if (std::fabs(x.kappa - k) <= tk && (x.d == sgn1(v.delta_s) || l < slack))
        ok = true;
    }
    s0 += l;
  }
  // at a segment boundary curvature may be taken from one side and direction from the other
  if (!ok)
  {
    bool kok = false, dok = false, boundary = false;
    s0 = 0;
    for (auto &v : u)
    {
      double l = std::fabs(v.delta_s);
      if (arc >= s0 - slack && arc <= s0 + l + slack)
      {
        double k = v.kappa + v.sigma * std::min(l, std::max(0.0, arc - s0));
        kok |= std::fabs(x.kappa - k) <= tk;
        dok |= x.d == sgn1(v.delta_s);
        boundary |= std::fabs(arc - s0) <= slack || std::fabs(arc - s0 - l) <= slack;
      }
      s0 += l;
    }
    ok = boundary && kok && dok;
  }
  o.expect(ok, "%s: state at t=%.17g has curvature %.9g, direction %g, which is not that of the path (%.9g)", n, t, x.kappa,
           x.d, p.k);
}
static void eval_interp(const Case &c, Outcome &o)
{
  auto s = space_of(c);
  State a = c.start(), b = c.goal();
  Controls u;
  if (c.x(2) >= 2)
  {
    u = free_controls(c);
    o.label(std::string("free:") + kInfo[c.space].name);
    o.nontrivial = u.size() >= 2;
  }
  else
  {
    u = s->controls(a, b);
    if (!o.expect(!u.empty() && all_finite(u), "controls are empty or not finite"))
      return;
    classify(c, u, o);
  }
  double L = total_length(u);
  std::vector<double> ts = { -1.0, -1e-9, 0.0, 1e-9, 0.5, 1.0 - 1e-9, 1.0, 1.0 + 1e-9, 3.0 };
  for (int i = 3; i < 8; i++)
    ts.push_back(c.x(i));
  double acc = 0;
  if (L > 0)
    for (auto &v : u)
    {
      acc += std::fabs(v.delta_s);
      ts.push_back(acc / L);
      ts.push_back(acc / L - 1e-4);
      ts.push_back(acc / L + 1e-4);
    }
  for (double t : ts)
    if (o.ok)
      check_interp(c, *s, a, u, t, o);
}
static void gen_interp(Rng &r, Case &c)
{
  gen_sampling(r, c);
  for (int i = 3; i < 8; i++)
    c.x(i) = r.u();
}
static Registrar r_int({ "interpolation", QUERY "paths of the spaces and free random control sequences; about 20 values of t per case "
                                                "(outside [0,1], ends, segment boundaries, random); " NONTRIVIAL,
                         gen_interp, eval_interp, valid_sampling, 160000, 4000000 });

// ------------------------------------------------------------------------------------------------ witnesses
bool witness_ok(const Case &c, const Controls &u, double slack, std::string *why)
{
  const SpaceInfo &f = kInfo[c.space];
  auto no = [&](const char *w) {
    if (why)
      *why = w;
    return false;
  };
  if (u.empty() || !all_finite(u))
    return no("not finite");
  double L = total_length(u);
  EndErr e = end_error(c, u);
  if (e.pos > slack * magnitude(c, L) || e.head > slack * (1 + L * c.kappa()))
    return no("goal");
  double sx, kx = bound_excess(c, u, sx);
  if (kx > slack * c.kappa() || sx > slack * c.sigma())
    return no("bounds");
  if (f.cont != G1 && worst_jump(c, u) > slack * c.kappa())
    return no("continuity");
  if (f.dir)
    for (auto &x : u)
      if (-f.dir * x.delta_s > slack / c.kappa())
        return no("direction");
  Outcome q;
  curv_ends(c, u, slack * c.kappa(), q);
  if (!q.ok)
    return no("end curvature");
  return true;
}
}  // namespace vh
