// Independence of history and of other objects; memory behaviour.
#include <sys/prctl.h>
#include <sys/wait.h>
#include <atomic>
#include <csignal>
#include <thread>
#include <unistd.h>
#include "util.hpp"
namespace vh
{
long live_memory();  // alloc.cpp
typedef std::vector<double> Result;

static void put(Result &r, const State &s)
{
  r.insert(r.end(), { s.x, s.y, s.theta, s.kappa, s.d });
}
static void put(Result &r, const State_With_Covariance &s)
{
  put(r, s.state);
  r.insert(r.end(), s.Sigma, s.Sigma + 16);
  r.insert(r.end(), s.Lambda, s.Lambda + 16);
  r.insert(r.end(), s.covariance, s.covariance + 16);
}
static void put(Result &r, const Control &u)
{
  r.insert(r.end(), { u.delta_s, u.kappa, u.sigma });
}
template <class T>
static Result flat(const std::vector<T> &v)
{
  Result r;
  for (auto &x : v)
    put(r, x);
  return r;
}
static bool same(const Result &a, const Result &b)
{
  return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

// ------------------------------------------------------------------------------------------------ operation sequences
enum
{
  MAX_OPS = 18,
  N_OBJ = 3,
  X_OBJ = 0,   // seeds of the objects' parameters
  X_NOPS = 3,  // number of operations
  X_OPS = 4,   // one seed per operation: object, kind, variation of the query
  X_QRY = 24,  // one seed per operation: the query; operations often share it
  X_WARM = 42,    // queries to the first object before the sequence
  X_SHARED = 43,  // threads query the same objects
};
// Objects: parameters of later ones often agree with those of the first in some respects, and so does the class, so that
// anything that is shared between objects (or remembered) by less than all parameters is noticed.
static Case object(const Case &c, int i)
{
  Case q;
  Rng r0((uint64_t)c.x(X_OBJ));
  q.space = c.space;
  gen_params(r0, q);
  if (i > 0)
  {
    Rng r((uint64_t)c.x(X_OBJ + i));
    if (r.coin(i == 1 ? 0.3 : 0.7))
      q.space = (int)(r.next() % N_SPACES);
    double k = q.v[F_KAPPA], s = q.v[F_SIGMA] / (k * k);
    if (r.coin(0.6))
      q.v[F_KAPPA] *= r.coin(0.2) ? 1 + r.sign() * r.logrange(1e-9, 1e-2) : r.logrange(0.5, 2);
    if (r.coin(0.4))
      q.v[F_SIGMA] = (q.v[F_KAPPA] * q.v[F_KAPPA]) * s;
    else if (r.coin(0.5))
      q.v[F_SIGMA] *= r.coin(0.2) ? 1 + r.sign() * r.logrange(1e-9, 1e-2) : r.logrange(0.5, 2);
    if (r.coin(0.5))
      q.v[F_DISC] *= r.logrange(0.3, 3);
  }
  q.v[F_DISC] = std::min(4.0, std::max(q.v[F_DISC] * q.kappa(), 0.1)) / q.kappa();
  return q;
}
struct Filter
{
  Motion_Noise m;
  Measurement_Noise z;
  Controller k;
};
static Filter filter_of(uint64_t seed)
{
  Rng r(seed);
  Filter f;
  f.m = { r.range(0, 1), r.range(0, 1), r.range(0, 1), r.range(0, 1) };
  f.z = { r.range(0.1, 1), r.range(0.1, 1), r.range(0.1, 1) };
  f.k = { r.range(0, 1), r.range(0, 1), r.range(0, 1) };
  return f;
}
enum OpKind
{
  OP_DISTANCE,
  OP_CONTROLS,
  OP_PATH,
  OP_INTEGRATE,
  OP_INTERPOLATE,
  OP_PATH_COV,
  OP_INTEGRATE_COV,
  OP_FILTER,
  OP_RECREATE,
  N_OPS
};
static OpKind kind_of(uint64_t seed, int &obj)
{
  Rng r(seed);
  obj = r.below(N_OBJ);
  return (OpKind)r.below(N_OPS);
}
static State_With_Covariance belief(const Case &q, Rng &r)
{
  State_With_Covariance b;
  b.state = q.start();
  for (int i = 0; i < 3; i++)
    b.Sigma[5 * i] = r.range(0, 1), b.Lambda[5 * i] = r.range(0, 1), b.covariance[5 * i] = b.Sigma[5 * i] + b.Lambda[5 * i];
  return b;
}
// The query of an operation: a random one that other operations share, or a variation of it.
struct Query
{
  State a, b;
  Controls u;
  State_With_Covariance w;
  double t;
};
static Query query(const Case &first, const Case &o, uint64_t qseed, uint64_t seed)
{
  auto states = [&](uint64_t s) {
    Case q = first;
    Rng r(s ^ 0xabcdef);
    do
      gen_states(r, q);
    while (q.cls == 2);
    gen_free_controls(r, q);
    return q;
  };
  Case q = states(qseed);
  Rng r(seed ^ 0x1234567);
  int m = r.below(9);
  if (m == 3)
  {
    State a = q.start();
    q.set_start(q.goal()), q.set_goal(a);
  }
  if (m == 4 || m == 5)
  {  // one number changes, by a little, by its sign or by a whole turn
    static const int fs[] = { F_SX, F_SY, F_ST, F_SK, F_GX, F_GY, F_GT, F_GK };
    int f = fs[r.below(8)];
    if (r.coin(0.3))
      q.v[f] = -q.v[f];
    else if ((f == F_ST || f == F_GT) && r.coin(0.3))
      q.v[f] += r.sign() * 2 * kPi;
    else
      q.v[f] += r.sign() * r.logrange(1e-12, 1e-1) * (f == F_SK || f == F_GK ? first.kappa() : 1.0);
  }
  if (m == 6)
    q.set_goal(states(seed).goal());
  if (m == 7)
    q.set_start(states(seed).start());
  if (m == 8)
    q.v[F_SD] = r.below(3) - 1, q.v[F_GD] = r.below(3) - 1;
  Query z;
  z.u = free_controls(q);
  if (is_g1(first.space) || is_g1(o.space))
    for (auto &x : z.u)
      x.sigma = 0;
  if (m == 5 && z.u.size() > 1)
    z.u.pop_back();
  if (m == 6)
  {
    Control &x = z.u[r.below(z.u.size())];
    if (r.coin())
      x.delta_s *= r.coin() ? -1.0 : 1 + r.logrange(1e-9, 1e-1);
    else if (x.sigma != 0)
      x.sigma *= r.coin() ? -1.0 : 0.9;
  }
  z.t = r.coin(0.2) ? r.below(3) * 0.5 : r.range(0, 1);
  // the curvature limit of this object
  double k0 = first.kappa(), k = o.kappa();
  for (int f : { F_SK, F_GK })
    q.v[f] = std::fabs(q.v[f]) >= k0 ? sgn1(q.v[f]) * k : std::max(-k, std::min(k, q.v[f]));
  z.a = q.start(), z.b = q.goal();
  Rng rb(qseed ^ 0x777);
  z.w = belief(q, rb);
  return z;
}
// the answer of a space to an operation, a function of its parameters, filter parameters and the query
static Result answer(Space &s, OpKind k, const Query &q)
{
  switch (k)
  {
    case OP_DISTANCE: return { s.distance(q.a, q.b) };
    case OP_CONTROLS: return flat(s.controls(q.a, q.b));
    case OP_PATH: return flat(s.path(q.a, q.b));
    case OP_INTEGRATE: return flat(s.integrate(q.a, q.u));
    case OP_INTERPOLATE:
    {
      Result a;
      put(a, s.interpolate(q.a, q.u, q.t));
      return a;
    }
    case OP_PATH_COV: return flat(s.path_cov(q.w, q.b));
    case OP_INTEGRATE_COV: return flat(s.integrate_cov(q.w, q.u));
    default: return {};
  }
}
struct Request
{
  Case first, obj;
  uint64_t fseed, qseed, seed;
  int kind;
};
static Result fresh_answer(const Request &q)
{
  auto s = make_space(q.obj.space, q.obj.kappa(), q.obj.sigma(), q.obj.disc());
  Filter f = filter_of(q.fseed);
  s->set_filter(f.m, f.z, f.k);
  return answer(*s, (OpKind)q.kind, query(q.first, q.obj, q.qseed, q.seed));
}

// Answers from a process that has never used the library before: a zygote is forked before the first call and forks a child
// for every request.
static bool xwrite(int fd, const void *p, size_t n)
{
  const char *b = (const char *)p;
  while (n)
  {
    ssize_t k = write(fd, b, n);
    if (k <= 0)
      return false;
    b += k, n -= k;
  }
  return true;
}
static bool xread(int fd, void *p, size_t n)
{
  char *b = (char *)p;
  while (n)
  {
    ssize_t k = read(fd, b, n);
    if (k <= 0)
      return false;
    b += k, n -= k;
  }
  return true;
}
class Zygote
{
  int to_ = -1, from_ = -1;
  pid_t owner_ = 0;

public:
  bool start()
  {
    if (owner_ == getpid())
      return true;
    int a[2], b[2];
    if (pipe(a) || pipe(b))
      return false;
    pid_t p = fork();
    if (p < 0)
      return false;
    if (p == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGCHLD, SIG_DFL);
      close(a[1]), close(b[0]);
      Request q;
      while (xread(a[0], &q, sizeof q))
      {
        pid_t c = fork();
        if (c == 0)
        {
          Result r = fresh_answer(q);
          uint64_t n = r.size();
          bool ok = xwrite(b[1], &n, sizeof n) && xwrite(b[1], r.data(), n * sizeof(double));
          _exit(ok ? 0 : 1);
        }
        int st = 0;
        if (c < 0 || waitpid(c, &st, 0) != c || st != 0)
          _exit(1);
      }
      _exit(0);
    }
    close(a[0]), close(b[1]);
    to_ = a[1], from_ = b[0];
    owner_ = getpid();
    return true;
  }
  bool ask(const Request &q, Result &r)
  {
    uint64_t n = 0;
    if (!xwrite(to_, &q, sizeof q) || !xread(from_, &n, sizeof n))
      return false;
    r.resize(n);
    return xread(from_, r.data(), n * sizeof(double));
  }
};
static Zygote g_zygote;

struct Done
{
  Request req;
  Result res;
};
static const char *kOp[] = { "get_distance", "get_controls", "get_path", "integrate", "interpolate", "get_path_with_covariance",
                             "integrate_with_covariance", "set_filter_parameters", "recreate" };
struct Objects
{
  std::unique_ptr<Space> s[N_OBJ];
};
static std::vector<Done> play(const Case &c, int lane, int lanes, Objects *shared = nullptr)
{
  // lane l of several executes the sequence, with its own objects unless they are shared (and then not changed)
  std::vector<Done> done;
  Objects own;
  std::unique_ptr<Space>(&s)[N_OBJ] = shared ? shared->s : own.s;
  Case o[N_OBJ];
  uint64_t f[N_OBJ];
  auto make = [&](int i) {
    s[i] = make_space(o[i].space, o[i].kappa(), o[i].sigma(), o[i].disc());
    Filter p = filter_of(f[i]);
    s[i]->set_filter(p.m, p.z, p.k);
  };
  for (int i = 0; i < N_OBJ; i++)
  {
    o[i] = object(c, i), f[i] = (uint64_t)c.x(X_OBJ + i) + 7;
    if (!s[i])
      make(i);
  }
  // a long history of the first object: random queries, some of them repeated
  if (lanes == 1)
    for (int j = 0; j < (int)c.x(X_WARM); j++)
    {
      Rng r((uint64_t)c.x(X_OBJ) + 1000 + j);
      uint64_t qseed = r.coin(0.2) ? (uint64_t)c.x(X_QRY) : (uint64_t)c.x(X_OBJ) + 3000 + r.below(j + 1);
      Request q;
      q.first = q.obj = o[0], q.fseed = f[0], q.qseed = qseed, q.seed = r.next(), q.kind = r.coin(0.9) ? OP_DISTANCE : r.below(OP_FILTER);
      done.push_back({ q, answer(*s[0], (OpKind)q.kind, query(o[0], o[0], qseed, q.seed)) });
    }
  int n = std::max(1, std::min((int)MAX_OPS, (int)c.x(X_NOPS)));
  for (int k = 0; k < n; k++)
  {
    int at = (k + lane * n / std::max(1, lanes)) % n, i;
    uint64_t seed = (uint64_t)c.x(X_OPS + at), qseed = (uint64_t)c.x(X_QRY + at);
    OpKind kind = kind_of(seed, i);
    if (c.x(X_SHARED) && (kind == OP_FILTER || kind == OP_RECREATE))
      continue;
    if (kind == OP_FILTER)
    {
      f[i] = seed;
      Filter p = filter_of(seed);
      s[i]->set_filter(p.m, p.z, p.k);
      continue;
    }
    if (kind == OP_RECREATE)
    {
      make(i);
      continue;
    }
    Request q;
    q.first = o[0], q.obj = o[i], q.fseed = f[i], q.qseed = qseed, q.seed = seed, q.kind = kind;
    done.push_back({ q, answer(*s[i], kind, query(o[0], o[i], qseed, seed)) });
  }
  return done;
}
static void eval_history(const Case &c, Outcome &o)
{
  if (!g_zygote.start())
    return;
  std::vector<Done> done = play(c, 0, 1);
  o.label(std::string("space:") + kInfo[c.space].name);
  o.label(c.x(X_WARM) ? "long_history" : "short_history");
  size_t warm = (size_t)c.x(X_WARM);
  o.nontrivial = done.size() >= warm + 3;
  // answers do not depend on what was asked before, from this or from other objects
  for (size_t i = warm; i < done.size() && o.ok; i++)
  {
    const Request &q = done[i].req;
    o.label(std::string("op:") + kOp[q.kind]);
    Result r;
    if (!g_zygote.ask(q, r))
    {
      o.fail("operation %zu (%s of %s) crashes in a fresh process", i, kOp[q.kind], kInfo[q.obj.space].name);
      return;
    }
    o.expect(same(r, done[i].res), "operation %zu of %zu (%s of %s) answers differently than in a process without history", i,
             done.size(), kOp[q.kind], kInfo[q.obj.space].name);
  }
  // the other way round, on new objects of this process
  for (size_t i = done.size(); i-- > 0 && o.ok;)
  {
    const Request &q = done[i].req;
    o.expect(same(fresh_answer(q), done[i].res), "operation %zu of %zu (%s of %s) answers differently on a new object", i,
             done.size(), kOp[q.kind], kInfo[q.obj.space].name);
  }
}
static void gen_history(Rng &r, Case &c)
{
  gen_query(r, c);
  for (int i = 0; i < N_OBJ; i++)
    c.x(X_OBJ + i) = (double)(r.next() >> 12);
  int n = 3 + r.below(12);
  c.x(X_NOPS) = n;
  for (int i = 0; i < n; i++)
  {
    c.x(X_OPS + i) = i > 2 && r.coin(0.1) ? c.x(X_OPS + r.below(i)) : (double)(r.next() >> 12);
    c.x(X_QRY + i) = i > 0 && r.coin(0.65) ? c.x(X_QRY + r.below(i)) : (double)(r.next() >> 12);
  }
  c.x(X_WARM) = r.coin(0.01) ? std::floor(r.logrange(10, 3000)) : 0;
  c.x(X_SHARED) = r.coin(0.4);
}
static bool valid_history(const Case &c)
{
  if (!valid_query(c))
    return false;
  for (int i = 0; i < c.nx; i++)
    if (c.x(i) < 0 || c.x(i) != std::floor(c.x(i)))
      return false;
  return c.x(X_NOPS) >= 1 && c.x(X_NOPS) <= MAX_OPS && c.x(X_WARM) <= 1e4 && c.x(X_SHARED) <= 1;
}
static Registrar r_hist({ "history",
                          "sequences of 3 to 14 operations (distance, controls, path, integrate, interpolate, both belief functions, "
                          "filter parameters, re-creation) on three objects, often of one class and with some parameters in common, with queries that "
                          "are often repeated or vary in one number, the start or the goal, sometimes after up to 3000 queries to one object; every answer is compared bit by bit "
                          "with that of a process without history and with that of a new object; non-trivial = at least three answers",
                          gen_history, eval_history, valid_history, 24000, 600000 });

static void eval_threads(const Case &c, Outcome &o)
{
  const int T = 4;
  std::vector<Done> res[T];
  std::thread th[T];
  Objects objects;
  bool shared = c.x(X_SHARED) >= 0.5;
  if (shared)
    for (int i = 0; i < N_OBJ; i++)
    {
      Case q = object(c, i);
      objects.s[i] = make_space(q.space, q.kappa(), q.sigma(), q.disc());
      Filter p = filter_of((uint64_t)c.x(X_OBJ + i) + 7);
      objects.s[i]->set_filter(p.m, p.z, p.k);
    }
  std::atomic<int> ready(0);
  for (int t = 0; t < T; t++)
    th[t] = std::thread([&, t]() {
      for (ready++; ready < T;)
        std::this_thread::yield();
      res[t] = play(c, t, T, shared ? &objects : nullptr);
    });
  for (auto &t : th)
    t.join();
  o.label(std::string("space:") + kInfo[c.space].name);
  o.label(shared ? "shared_objects" : "own_objects");
  o.nontrivial = res[0].size() >= 3;
  for (int t = 0; t < T && o.ok; t++)
  {
    std::vector<Done> seq = play(c, t, T);
    o.expect(seq.size() == res[t].size(), "number of answers differs between threads");
    for (size_t i = 0; i < seq.size() && o.ok; i++)
      o.expect(same(seq[i].res, res[t][i].res), "thread %d, operation %zu (%s of %s): the answer differs while other threads use "
               "objects of their own or the same ones", t, i, kOp[seq[i].req.kind], kInfo[seq[i].req.obj.space].name);
  }
}
static Registrar r_thr({ "threads",
                         "operation sequences as in 'history' on four threads at once, each with its own objects or all with the same ones; answers are compared "
                         "bit by bit with those of the same sequence alone (built with ThreadSanitizer in a second run); non-trivial = at "
                         "least three answers per thread",
                         gen_history, eval_threads, valid_history, 12000, 240000, 200 });

// ------------------------------------------------------------------------------------------------ memory, totality
static void gen_wide(Rng &r, Case &c)
{
  c.space = r.below(N_SPACES);
  gen_params(r, c);
  c.x(2) = r.coin(0.5);
  if (c.x(2))
  {
    double k = r.logrange(0.02, 20);
    c.v[F_KAPPA] = k;
    c.v[F_SIGMA] = k * k * r.logrange(0.05, 50);
  }
  gen_states(r, c);
  if (c.x(2) && r.coin(0.3))
    for (int i : { F_SX, F_SY, F_GX, F_GY })
      c.v[i] += r.range(-1, 1) * r.logrange(1, 1e4);
  double D = std::hypot(c.v[F_GX] - c.v[F_SX], c.v[F_GY] - c.v[F_SY]);
  double unit = 1 / c.kappa() + c.kappa() / c.sigma();
  c.v[F_DISC] = std::max(0.05 * unit, (D + 10 * unit) / 60) * r.logrange(0.5, 2);
  gen_free_controls(r, c);
}
static bool valid_wide(const Case &c)
{
  if (!domain_ok(c) || c.x(0) < 0 || c.x(1) < 1)
    return false;
  double k = c.kappa();
  if (k < 0.00999 || k > 20.01 || c.sigma() < 0.0499 * k * k || c.sigma() > 80.01 * k * k)
    return false;
  for (int i : { F_SK, F_GK })
    if (std::fabs(c.v[i]) > k)
      return false;
  double D = std::hypot(c.v[F_GX] - c.v[F_SX], c.v[F_GY] - c.v[F_SY]) + 1 / k + k / c.sigma();
  return D < 1e6 && c.disc() > D / 2000;
}
// the belief grows without bound along coarse paths under feedback gains that are unstable at that step length, so only the
// states of a belief path are required to be finite
static Result states(const std::vector<State_With_Covariance> &v)
{
  Result r;
  for (auto &x : v)
    put(r, x.state);
  return r;
}
static Result everything(const Case &c, Space &s)
{
  Result r;
  auto app = [&](const Result &x) { r.insert(r.end(), x.begin(), x.end()); };
  State a = c.start(), b = c.goal();
  r.push_back(s.distance(a, b));
  Controls u = s.controls(a, b);
  app(flat(u));
  app(flat(s.path(a, b)));
  app(flat(s.integrate(a, u)));
  Rng g((uint64_t)c.x(0));
  State_With_Covariance w = belief(c, g);
  app(states(s.path_cov(w, b)));
  Controls f = free_controls(c);
  app(flat(s.integrate(a, f)));
  app(states(s.integrate_cov(w, f)));
  for (double t : { -1.0, 0.0, 0.3, g.range(0, 1), 1.0, 2.0 })
  {
    put(r, s.interpolate(a, u, t));
    put(r, s.interpolate(a, f, t));
  }
  return r;
}
static void eval_total(const Case &c, Outcome &o)
{
  const char *n = kInfo[c.space].name;
  o.label(std::string("space:") + n);
  o.label(c.x(2) >= 0.5 ? "wide" : "usual");
  o.nontrivial = true;
  Filter f = filter_of((uint64_t)c.x(0));
  size_t bad = 0, size = 0;
  long grown = 0, grown_base = 0;
  bool same = true;
  for (int i = 0; i < 3; i++)
  {
    long before = live_memory();
    {
      auto s = make_space(c.space, c.kappa(), c.sigma(), c.disc());
      s->set_filter(f.m, f.z, f.k);
      Result r = everything(c, *s);
      size = r.size();
      bad = 0;
      for (double x : r)
        if (!std::isfinite(x))
          bad++;
      if (i < 2)
      {
        // used and destroyed through the base class
        long inner = live_memory();
        {
          auto b = make_space_by_base(c.space, c.kappa(), c.sigma(), c.disc());
          b->set_filter(f.m, f.z, f.k);
          Result q = everything(c, *b);
          same = q.size() == r.size() && (q.empty() || std::memcmp(q.data(), r.data(), q.size() * sizeof(q[0])) == 0);
        }
        grown_base = live_memory() - inner;
      }
    }
    grown = live_memory() - before;
  }
  o.expect(same, "%s: other results when it is used through the base class", n);
  o.expect(grown_base <= 0, "%s: %ld blocks or bytes of memory are still in use after the object was destroyed through the base class",
           n, grown_base);
  o.expect(bad == 0, "%s: %zu of %zu returned numbers are not finite", n, bad, size);
  o.expect(grown <= 0, "%s: %ld blocks or bytes of memory are still in use after the objects and results are gone", n, grown);
}
static Registrar r_total({ "totality",
                           "19 spaces, half of the cases with parameters over three orders of magnitude and coordinates up to 1e4, all public "
                           "functions with queries and free control sequences, run under AddressSanitizer/UBSan (assertions enabled) and "
                           "MemorySanitizer; every case is non-trivial",
                           gen_wide, eval_total, valid_wide, 60000, 1500000 });
}  // namespace vh
