// Properties that relate several queries: optimality, symmetry, consistency between the spaces.
#include "util.hpp"
namespace vh
{
static double dist(int id, const Case &c, const State &a, const State &b)
{
  return make_space(id, c.kappa(), c.sigma(), c.disc())->distance(a, b);
}
static double dist(const Case &c)
{
  return dist(c.space, c, c.start(), c.goal());
}
static double unit(const Case &c)
{
  return 1 / c.kappa();
}

// ------------------------------------------------------------------------------------------------ independent Dubins
static double mod2pi(double a)
{
  double m = a - 2 * kPi * std::floor(a / (2 * kPi));
  return m > 2 * kPi - 1e-9 ? 0.0 : m;
}
// shortest Dubins path in units of the turning radius, from the origin heading 0; constructed from the turning circles
static double dubins_opt_half(double x, double y, double th)
{
  double best = 1e300;
  double slx = 0, sly = 1, glx = x - std::sin(th), gly = y + std::cos(th), grx = x + std::sin(th), gry = y - std::cos(th);
  {  // LSL
    double D = std::hypot(glx - slx, gly - sly), phi = D < 1e-12 ? 0 : std::atan2(gly - sly, glx - slx);
    if (D < 1e-12)
      best = std::min(best, mod2pi(th));
    else
      best = std::min(best, mod2pi(phi) + D + mod2pi(th - phi));
  }
  {  // LSR
    double D = std::hypot(grx - slx, gry - sly);
    if (D >= 2)
    {
      double p = std::sqrt(std::max(0.0, D * D - 4)), h = std::atan2(gry - sly, grx - slx) + std::atan2(2.0, p);
      best = std::min(best, mod2pi(h) + p + mod2pi(h - th));
    }
  }
  {  // LRL
    double D = std::hypot(glx - slx, gly - sly);
    if (D <= 4 && D > 1e-9)
    {
      double a = std::atan2(gly - sly, glx - slx), b = std::acos(D / 4);
      for (int sd = -1; sd <= 1; sd += 2)
      {
        double h1 = a + sd * b + kPi / 2;  // heading where the first circle touches the middle one
        double mx = slx + 2 * std::cos(a + sd * b), my = sly + 2 * std::sin(a + sd * b);
        double h2 = std::atan2(gly - my, glx - mx) - kPi / 2;
        best = std::min(best, mod2pi(h1) + mod2pi(h1 - h2) + mod2pi(th - h2));
      }
    }
  }
  return best;
}
static double dubins_opt(const Case &c)
{
  State a = c.start(), b = c.goal();
  if (kInfo[c.space].dir < 0)
    std::swap(a, b);
  double k = c.kappa(), dx = (b.x - a.x) * k, dy = (b.y - a.y) * k;
  double x = dx * std::cos(a.theta) + dy * std::sin(a.theta), y = -dx * std::sin(a.theta) + dy * std::cos(a.theta);
  double th = b.theta - a.theta;
  return std::min(dubins_opt_half(x, y, th), dubins_opt_half(x, -y, -th)) / k;
}

// Reeds-Shepp words: the families of Reeds and Shepp with random parameters, plus unstructured ones
static Controls rs_word(const Case &c)
{
  Rng r((uint64_t)c.x(0));
  int m = (int)c.x(1);
  double R = unit(c);
  Controls w;
  auto seg = [&](double l, int turn) {
    Control u;
    u.delta_s = l * R, u.kappa = turn * c.kappa(), u.sigma = 0;
    w.push_back(u);
  };
  auto A = [&]() { return r.coin(0.1) ? 0.0 : r.range(0, kPi / 2); };
  int s = r.coin() ? 1 : -1;        // first turn
  double d = r.coin() ? 1 : -1;     // first direction
  double h = kPi / 2, S = r.logrange(0.05, 6);
  bool rev = r.coin();
  double t = A(), u = A(), v = A();
  switch (m)
  {
    case 0:
      seg(d * t, s), seg(d * S, 0), seg(d * u, s);
      break;
    case 1:
      seg(d * t, s), seg(d * S, 0), seg(d * u, -s);
      break;
    case 2:
      seg(d * t, s), seg(-d * u, -s), seg(d * v, s);
      break;
    case 3:
      seg(d * t, s), seg(-d * u, -s), seg(-d * v, s);
      break;
    case 4:
      seg(d * t, s), seg(d * u, -s), seg(-d * u, s), seg(-d * v, -s);
      break;
    case 5:
      seg(d * t, s), seg(-d * u, -s), seg(-d * u, s), seg(d * v, -s);
      break;
    case 6:
      seg(d * t, s), seg(-d * h, -s), seg(-d * S, 0), seg(-d * v, -s);
      break;
    case 7:
      seg(d * t, s), seg(-d * h, -s), seg(-d * S, 0), seg(-d * v, s);
      break;
    case 8:
      seg(d * t, s), seg(-d * h, -s), seg(-d * S, 0), seg(-d * h, s), seg(d * v, -s);
      break;
    case 9:
    {  // C|C|C with the middle part up to a half turn, C|C
      seg(d * t, s), seg(-d * r.range(0, kPi), -s);
      if (r.coin())
        seg(d * v, s);
      break;
    }
    default:
    {
      int n = 2 + r.below(4);
      for (int i = 0; i < n; i++)
      {
        seg(d * (r.coin(0.3) ? h : r.range(0, kPi)), r.below(3) - 1);
        if (r.coin())
          d = -d;
      }
    }
  }
  if (rev)
    std::reverse(w.begin(), w.end());
  return w;
}
static Controls dubins_word(const Case &c)
{
  Rng r((uint64_t)c.x(0));
  double R = unit(c), d = kInfo[c.space].dir;
  int m = (int)c.x(1), n = m < 6 ? 3 : 1 + r.below(5);
  static const int W[6][3] = { { 1, 0, 1 }, { -1, 0, -1 }, { 1, 0, -1 }, { -1, 0, 1 }, { 1, -1, 1 }, { -1, 1, -1 } };
  Controls w;
  for (int i = 0; i < n; i++)
  {
    int t = m < 6 ? W[m][i] : r.below(3) - 1;
    double l = t == 0 ? r.logrange(0.02, 8) : m >= 4 && m < 6 && i == 1 ? r.range(kPi, 2 * kPi) : r.range(0, r.coin(0.7) ? 1.6 : 5.0);
    Control u;
    u.delta_s = d * l * R, u.kappa = t * c.kappa(), u.sigma = 0;
    if (!w.empty() && w.back().kappa == u.kappa)
      w.back().delta_s += u.delta_s;
    else
      w.push_back(u);
  }
  // The Dubins distance jumps at the ends of words with less than three segments (rounding decides on which side the goal
  // lies), so short words get a tiny third segment
  auto piece = [&](double k, double l) {
    Control u;
    u.delta_s = d * l, u.kappa = k, u.sigma = 0;
    return u;
  };
  const double tiny = 1e-4 * R;
  if (w.size() == 1 && w[0].kappa != 0)
  {
    double h = 0.5 * std::fabs(w[0].delta_s), k = w[0].kappa;
    w = { piece(k, h), piece(0, tiny), piece(k, h) };
  }
  else if (w.size() == 1)
    w = { piece(c.kappa(), tiny), w[0], piece(c.kappa(), tiny) };
  else if (w.size() == 2 && w[1].kappa == 0)
    w.push_back(piece(w[0].kappa, tiny));
  else if (w.size() == 2 && w[0].kappa == 0)
    w.insert(w.begin(), piece(w[1].kappa, tiny));
  else if (w.size() == 2)
    w.insert(w.begin() + 1, piece(0, tiny));
  return w;
}
static void gen_opt(Rng &r, Case &c)
{
  c.space = r.coin() ? RS : r.coin() ? DUBINS_F : DUBINS_B;
  gen_params(r, c);
  gen_states(r, c);
  c.x(0) = (double)(r.next() >> 12);
  c.x(1) = r.below(c.space == RS ? 14 : 9);
  c.x(3) = r.range(0, 1), c.x(4) = r.range(0, 1), c.x(5) = r.range(-kPi, kPi);
  c.x(2) = r.coin(0.6);  // 1: the goal is the end of a word
}
static bool valid_opt(const Case &c)
{
  return valid_query(c) && is_g1(c.space) && c.x(0) >= 0 && c.x(1) >= 0;
}
static void eval_opt(const Case &c0, Outcome &o)
{
  Case c = c0;
  const char *n = kInfo[c.space].name;
  o.nontrivial = true;
  o.label(std::string("space:") + n);
  Controls w;
  if (c.x(2) >= 0.5)
  {
    w = c.space == RS ? rs_word(c) : dubins_word(c);
    Pose e = ref_end(c.start(), w);
    c.v[F_GX] = e.x, c.v[F_GY] = e.y, c.v[F_GT] = e.th;
    o.label("word_family:" + std::string(c.space == RS ? "rs" : "dubins") + std::to_string((int)c.x(1)));
  }
  else
    o.label(std::string("class:") + class_name(c.cls));
  double d = dist(c), tol = 1e-6 * (unit(c) + d);
  if (!o.expect(std::isfinite(d) && d >= 0, "%s: distance %.9g", n, d))
    return;
  // (a) not longer than the word that was driven
  if (!w.empty() && d > total_length(w) + tol)
  {
    // Dubins distances jump where a turn vanishes, and rounding decides on which side the goal lies: a defect is seen at all
    // goals around it
    double loose = 1e-3 * (unit(c) + d);
    bool real = c.space == RS || d > total_length(w) + loose;
    Rng r(77);
    for (int i = 0; i < 24 && real && c.space != RS; i++)
    {
      Case q = c;
      q.v[F_GX] += r.range(-1, 1) * 1e-7 * unit(c), q.v[F_GY] += r.range(-1, 1) * 1e-7 * unit(c), q.v[F_GT] += r.range(-1, 1) * 1e-7;
      real = dist(q) > total_length(w) + loose;
    }
    o.expect(!real, "%s: distance %.9g although the word %s of length %.9g reaches the goal", n, d,
             signature(c, w).c_str(), total_length(w));
  }
  // (b) Dubins: not longer than the shortest of the six words, computed independently
  if (c.space != RS)
  {
    auto bad = [&](const Case &q) {
      double e = dubins_opt(q), f = dist(q);
      return f > e + 1e-6 * (unit(q) + e);
    };
    if (bad(c))
      o.expect(!persists(c, bad) && !persists_nearby(c, bad), "%s: distance %.9g but the shortest Dubins path has length %.9g", n, d, dubins_opt(c));
    auto bad2 = [&](const Case &q) {
      double e = dubins_opt(q), f = dist(q);
      return f < e - 1e-6 * (unit(q) + e);
    };
    if (o.ok && bad2(c))
      o.expect(!persists(c, bad2), "%s: distance %.9g is below the optimum %.9g", n, d, dubins_opt(c));
  }
  else
  {
    // (c) Reeds-Shepp: not longer than either Dubins path, not longer in the opposite direction
    State a = c.start(), b = c.goal();
    double back = dist(RS, c, b, a);
    o.within("rs_reversal", d - back, tol, "%s: distance %.12g, but %.12g in the opposite direction", n, d, back);
    Case q = c;
    q.space = DUBINS_F;
    double e = dubins_opt(q);
    q.space = DUBINS_B;
    e = std::min(e, dubins_opt(q));
    o.within("rs_vs_dubins", std::max(0.0, d - e), tol, "%s: distance %.9g exceeds the Dubins distance %.9g", n, d, e);
    // (d) not longer than the path of the frozen reference implementation, which is validated here
    auto bad = [&](const Case &z) {
      Controls u = make_ref_space(RS, z.kappa(), z.sigma(), z.disc())->controls(z.start(), z.goal());
      return witness_ok(z, u, kWitness, nullptr) && dist(z) > total_length(u) + 1e-6 * (unit(z) + total_length(u));
    };
    if (bad(c))
      o.expect(!persists(c, bad) && !persists_nearby(c, bad), "%s: distance %.9g although a shorter Reeds-Shepp path exists", n, d);
    // (e) parts of a shortest path are shortest (Reeds-Shepp distance is a metric). The middle is moved by 1e-8 because at the end
    // of a segment the library may miss a family by rounding; the distance is Hoelder continuous with exponent 1/2
    Controls u = make_space(RS, c.kappa(), c.sigma(), c.disc())->controls(a, b);
    double L = total_length(u), R = unit(c), loose = 1e-3 * R;
    Rng r(5);
    double e1 = 1e300, e2 = 1e300, d1 = 0, d2 = 0;
    for (int i = 0; i < 6 && (e1 > loose || e2 > loose); i++)
    {
      Pose m = ref_at(a, u, 0.37 * L);
      State ms = mk_state(m.x, m.y, m.th, 0);
      if (i)
        ms.x += r.range(-1e-8, 1e-8) * R, ms.y += r.range(-1e-8, 1e-8) * R, ms.theta += r.range(-1e-8, 1e-8);
      d1 = dist(RS, c, a, ms), d2 = dist(RS, c, ms, b);
      e1 = std::min(e1, d1 - 0.37 * L), e2 = std::min(e2, d2 - 0.63 * L);
    }
    o.within("sub_path", std::max({ 0.0, e1, e2 }), loose,
             "%s: a part of the shortest path (%.9g of %.9g) is not itself shortest: %.9g, %.9g", n, 0.37 * L, L, d1, d2);
    // (f) triangle inequality through an arbitrary third state
    State z = mk_state(a.x + (c.x(3) - 0.5) * 6 * R, a.y + (c.x(4) - 0.5) * 6 * R, a.theta + c.x(5), 0);
    double d3 = dist(RS, c, a, z), d4 = dist(RS, c, z, b);
    if (d > d3 + d4 + loose)
      o.expect(!persists(c, [&](const Case &q) {
                 return dist(q) > dist(RS, q, q.start(), z) + dist(RS, q, z, q.goal()) + loose;
               }), "%s: distance %.9g exceeds that via a third state, %.9g + %.9g", n, d, d3, d4);
  }
}
static Registrar r_opt({ "g1_optimal",
                         "Dubins (both directions) and Reeds-Shepp; goals drawn from 15 classes or reached by driving a random word of "
                         "one of the Dubins/Reeds-Shepp families or an arbitrary word; oracle: length of the driven word, an "
                         "independent six-word Dubins solver, Dubins distance, validated paths of a reference implementation, "
                         "sub-path optimality; every case is non-trivial",
                         gen_opt, eval_opt, valid_opt, 600000, 12000000 });

// ------------------------------------------------------------------------------------------------ families
static bool longer_than_witness(const Case &q, double *dw)
{
  auto ref = make_ref_space(q.space, q.kappa(), q.sigma(), q.disc());
  Controls u = ref->controls(q.start(), q.goal());
  if (!witness_ok(q, u, kWitness, nullptr))
    return false;
  // distance and controls may differ within the resolution where states are snapped to one another
  double L = std::max(total_length(u), ref->distance(q.start(), q.goal()));
  if (dw)
    *dw = L;
  return dist(q) > L + 1e-6 * (unit(q) + L);
}
static void eval_family(const Case &c, Outcome &o)
{
  const char *n = kInfo[c.space].name;
  o.label(std::string("space:") + n);
  o.label(std::string("class:") + class_name(c.cls));
  double dw = 0;
  Controls u = make_ref_space(c.space, c.kappa(), c.sigma(), c.disc())->controls(c.start(), c.goal());
  bool valid = witness_ok(c, u, kWitness, nullptr);
  if (valid)
    o.label(std::string("word:") + n + ":" + signature(c, u));
  o.nontrivial = valid && total_length(u) > 1e-3 * unit(c);
  double d = dist(c);
  if (!o.expect(std::isfinite(d), "%s: distance %.9g", n, d))
    return;
  if (valid && d > total_length(u) + 1e-6 * (unit(c) + total_length(u)))
  {
    dw = total_length(u);
    auto longer = [](const Case &q) { return longer_than_witness(q, nullptr); };
    bool real = persists(c, longer, 0.002, 9, 7) || persists_nearby(c, longer);
    o.expect(!real, "%s: distance %.9g although an admissible path %s of length %.9g of this steering function exists", n, d,
             signature(c, u).c_str(), dw);
  }
}
static void gen_hccc(Rng &r, Case &c)
{
  do
    c.space = r.below(N_SPACES);
  while (is_g1(c.space));
  gen_params(r, c);
  gen_states(r, c);
}
static bool valid_hccc(const Case &c)
{
  return valid_query(c) && !is_g1(c.space);
}
static Registrar r_fam({ "shortest_family",
                         "16 continuous-curvature spaces, 15 classes of goals; witness: the path of a frozen reference implementation, "
                         "validated by exact integration (goal, bounds, continuity, direction, end curvatures); non-trivial = a valid "
                         "witness longer than 0.001/kappa exists",
                         gen_hccc, eval_family, valid_hccc, 500000, 10000000 });

// ------------------------------------------------------------------------------------------------ symmetry
static int reversed_space(int id)
{
  switch (id)
  {
    case CC_D_F: return CC_D_B;
    case CC_D_B: return CC_D_F;
    case CC00_D_F: return CC00_D_B;
    case CC00_D_B: return CC00_D_F;
    case CC0PM_D_F: return CCPM0_D_B;
    case CC0PM_D_B: return CCPM0_D_F;
    case CCPM0_D_F: return CC0PM_D_B;
    case CCPM0_D_B: return CC0PM_D_F;
    case CCPMPM_D_F: return CCPMPM_D_B;
    case CCPMPM_D_B: return CCPMPM_D_F;
    case DUBINS_F: return DUBINS_B;
    case DUBINS_B: return DUBINS_F;
    case HC0PM_RS: return HCPM0_RS;
    case HCPM0_RS: return HC0PM_RS;
  }
  return id;
}
static int flipped_space(int id)
{  // driving direction exchanged
  if (id <= DUBINS_B)
    return id ^ 1;
  return id;
}
static Case transform(const Case &c, int which, const double *x)
{
  Case t = c;
  State a = c.start(), b = c.goal();
  auto apply = [&](auto f) {
    f(a), f(b);
  };
  switch (which)
  {
    case 0:
    {  // rigid motion
      double ca = std::cos(x[0]), sa = std::sin(x[0]);
      apply([&](State &s) {
        double X = s.x * ca - s.y * sa + x[1], Y = s.x * sa + s.y * ca + x[2];
        s.x = X, s.y = Y, s.theta = s.theta + x[0];
      });
      break;
    }
    case 1:  // full turns of the headings
      a.theta += 2 * kPi * std::round(x[3]);
      b.theta += 2 * kPi * std::round(x[4]);
      break;
    case 2:  // mirror image
      apply([&](State &s) { s.y = -s.y, s.theta = -s.theta, s.kappa = -s.kappa; });
      break;
    case 3:  // drive the path the other way round
      std::swap(a, b);
      t.space = reversed_space(c.space);
      break;
    case 4:  // turn the car around: forwards becomes backwards
      apply([&](State &s) { s.theta += kPi, s.kappa = -s.kappa; });
      t.space = flipped_space(c.space);
      break;
    case 5:  // change of the unit of length
    {
      double f = x[5];
      apply([&](State &s) { s.x *= f, s.y *= f, s.kappa /= f; });
      t.v[F_KAPPA] /= f, t.v[F_SIGMA] /= f * f, t.v[F_DISC] *= f;
      break;
    }
    case 6:  // the driving direction noted in the states is irrelevant
      a.d = -a.d + 1, b.d = 0.5;
      break;
  }
  t.set_start(a), t.set_goal(b);
  // keep |curvature| exactly at the bound
  for (int i : { F_SK, F_GK })
    if (std::fabs(std::fabs(t.v[i]) - t.kappa()) < 1e-12 * t.kappa())
      t.v[i] = t.v[i] > 0 ? t.kappa() : -t.kappa();
  return t;
}
static const char *kSym[] = { "a rigid motion", "full turns of the headings", "mirroring", "reversing the path",
                              "turning the car around", "scaling", "the noted driving direction" };
static void eval_sym(const Case &c, Outcome &o)
{
  const char *n = kInfo[c.space].name;
  double x[6];
  for (int i = 0; i < 6; i++)
    x[i] = c.x(i);
  int which = (int)c.x(6);
  o.label(std::string("space:") + n);
  o.label(std::string("sym:") + kSym[which]);
  auto differ = [&](const Case &q) {
    Case t = transform(q, which, x);
    if (near_rest_curvature(q) || near_rest_curvature(t))
      return false;
    double f = which == 5 ? x[5] : 1.0;
    double d = dist(q), e = dist(t) / f;
    return !(std::fabs(d - e) <= 1e-6 * (unit(q) + d));
  };
  double d = dist(c);
  o.nontrivial = d > 1e-3 * unit(c);
  if (differ(c))
  {
    Case t = transform(c, which, x);
    o.label("at_threshold");
    o.expect(!persists(c, differ, 0.005), "%s: distance %.9g changes to %.9g under %s, here and on nearby queries", n, d,
             dist(t), kSym[which]);
  }
}
static void gen_sym(Rng &r, Case &c)
{
  gen_query(r, c);
  double R = unit(c);
  c.x(0) = r.coin(0.2) ? (r.below(9) - 4) * kPi / 4 : r.range(-kPi, kPi);
  c.x(1) = r.range(-20, 20) * R;
  c.x(2) = r.range(-20, 20) * R;
  c.x(3) = r.below(5) - 2;
  c.x(4) = r.below(5) - 2;
  c.x(5) = r.logrange(0.4, 2.5);
  c.x(6) = r.below(7);
}
static bool valid_sym(const Case &c)
{
  return valid_query(c) && c.x(5) >= 0.3 && c.x(5) <= 3 && c.x(6) >= 0 && c.x(6) <= 6 && c.x(6) == std::floor(c.x(6));
}
static Registrar r_sym({ "symmetry",
                         "19 spaces, 15 classes of goals, one of 7 transformations (rigid motion, whole turns, mirror image, reversal, "
                         "turning the car around, scaling, direction flag); a difference counts when it persists on 7 of 9 nearby "
                         "queries; non-trivial = distance above 0.001/kappa",
                         gen_sym, eval_sym, valid_sym, 900000, 16000000 });

// ------------------------------------------------------------------------------------------------ consistency
struct Pred
{
  State s;
  double len;
};
// from a state, drive clothoids of full sharpness to zero and to maximum curvature, in direction d
static void predict(const Case &c, const State &s, double d, std::vector<Pred> &out)
{
  double k = c.kappa(), sg = s.kappa < 0 ? -1 : 1, a = std::fabs(s.kappa);
  for (int m = 0; m < 2; m++)
  {
    double len = (m ? k - a : a) / c.sigma();
    Pose p = { s.x, s.y, s.theta, s.kappa };
    p = ref_step(p, d, (m ? sg : -sg) * c.sigma(), len);
    out.push_back({ mk_state(p.x, p.y, p.th, m ? sg * k : 0.0), len });
  }
}
static bool rest(const Case &c, double k)
{
  return k == 0 || std::fabs(k) == c.kappa();
}
static int fixed_space(int id, bool z1, bool z2)
{  // id is CC_D_F, CC_D_B or HC_RS
  if (id == HC_RS)
    return z1 ? (z2 ? HC00_RS : HC0PM_RS) : (z2 ? HCPM0_RS : HCPMPM_RS);
  int b = id == CC_D_B;
  return (z1 ? (z2 ? CC00_D_F : CC0PM_D_F) : (z2 ? CCPM0_D_F : CCPMPM_D_F)) + b;
}
// best length through the fixed-curvature spaces, for queries with arbitrary end curvatures
static double composed(const Case &c)
{
  std::vector<Pred> A, B;
  State a = c.start(), b = c.goal();
  int dir = kInfo[c.space].dir;
  for (int d = -1; d <= 1; d += 2)
  {
    if (rest(c, a.kappa))
    {
      if (d < 0)
        A.push_back({ a, 0.0 });
    }
    else if (dir == 0 || dir == d)
      predict(c, a, d, A);
    if (rest(c, b.kappa))
    {
      if (d < 0)
        B.push_back({ b, 0.0 });
    }
    else if (dir == 0 || dir == -d)
      predict(c, b, d, B);
  }
  double best = 1e300;
  for (auto &p : A)
    for (auto &q : B)
      best = std::min(best, p.len + q.len + dist(fixed_space(c.space, p.s.kappa == 0, q.s.kappa == 0), c, p.s, q.s));
  return best;
}
static bool differs(double a, double b, const Case &c)
{
  return !(std::fabs(a - b) <= 1e-6 * (unit(c) + std::fabs(a)));
}
static void eval_consist(const Case &c, Outcome &o)
{
  const char *n = kInfo[c.space].name;
  o.label(std::string("space:") + n);
  double d = dist(c);
  o.nontrivial = d > 1e-3 * unit(c);
  const SpaceInfo &f = kInfo[c.space];
  if (f.start == CURV_FREE)
  {
    bool both_rest = rest(c, c.v[F_SK]) && rest(c, c.v[F_GK]);
    o.label(both_rest ? "rest_curvatures" : "intermediate_curvature");
    auto bad = [&](const Case &q) {
      double x = dist(q), y = composed(q);
      return both_rest ? differs(x, y, q) : x > y + 1e-6 * (unit(q) + y);
    };
    // neighbours must keep the rest curvatures
    auto keep = [&](const Case &q) {
      Case z = q;
      if (rest(c, c.v[F_SK]))
        z.v[F_SK] = c.v[F_SK];
      if (rest(c, c.v[F_GK]))
        z.v[F_GK] = c.v[F_GK];
      if (near_rest_curvature(z))
        return false;
      return bad(z);
    };
    if (!near_rest_curvature(c) && bad(c))
      o.expect(!persists(c, keep, 0.005), "%s: distance %.9g, but driving clothoids to zero/maximum curvature and the fixed-curvature "
                                  "functions give %.9g", n, d, composed(c));
  }
  if (f.start == CURV_PM || f.goal == CURV_PM)
  {
    // curvature 0 leaves the sign open: the better sign is taken
    auto signs = [&](const Case &q, double &best) {
      best = 1e300;
      for (int i = -1; i <= 1; i += 2)
        for (int j = -1; j <= 1; j += 2)
        {
          Case z = q;
          if (f.start == CURV_PM)
            z.v[F_SK] = i * q.kappa();
          if (f.goal == CURV_PM)
            z.v[F_GK] = j * q.kappa();
          best = std::min(best, dist(z));
        }
      Case z = q;
      if (f.start == CURV_PM)
        z.v[F_SK] = 0;
      if (f.goal == CURV_PM)
        z.v[F_GK] = 0;
      return dist(z);
    };
    auto bad = [&](const Case &q) {
      double best, open = signs(q, best);
      return differs(open, best, q);
    };
    if (bad(c))
    {
      double best, open = signs(c, best);
      o.expect(!persists(c, bad, 0.005), "%s: distance with open sign of the end curvature is %.9g, best over the signs %.9g", n, open, best);
    }
  }
  // a more restricted vehicle never has a shorter path
  State a = c.start(), b = c.goal();
  double lower = -1;
  const char *who = "";
  if (f.dir == 0 && c.space != RS)
    lower = dist(RS, c, a, b), who = "Reeds-Shepp";
  else if (f.dir != 0 && !is_g1(c.space))
    lower = dist(f.dir > 0 ? DUBINS_F : DUBINS_B, c, a, b), who = "Dubins";
  else if (is_g1(c.space) && f.dir)
    lower = dist(RS, c, a, b), who = "Reeds-Shepp";
  if (lower >= 0 && !near_rest_curvature(c) && d < lower - 1e-6 * (unit(c) + lower))
  {
    auto bad = [&](const Case &q) {
      if (near_rest_curvature(q))
        return false;
      State a = q.start(), b = q.goal();
      double l = dist(f.dir == 0 || is_g1(q.space) ? RS : f.dir > 0 ? DUBINS_F : DUBINS_B, q, a, b);
      return dist(q) < l - 1e-6 * (unit(q) + l);
    };
    o.expect(!persists(c, bad), "%s: distance %.9g is below the %s distance %.9g", n, d, who, lower);
  }
}
static void gen_consist(Rng &r, Case &c)
{
  if (r.coin(0.5))
  {
    static const int fs[] = { CC_D_F, CC_D_B, HC_RS };
    c.space = fs[r.below(3)];
  }
  else
    c.space = r.below(N_SPACES);
  gen_params(r, c);
  gen_states(r, c);
}
static Registrar r_con({ "consistency",
                         "spaces with arbitrary end curvature against the fixed-curvature spaces (composition with clothoids to zero/"
                         "maximum curvature), open-sign queries against both signs, restricted vehicles against less restricted ones; "
                         "non-trivial = distance above 0.001/kappa",
                         gen_consist, eval_consist, valid_query, 400000, 8000000 });
}  // namespace vh
