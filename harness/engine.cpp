// Property-based testing engine: generation, forked workers, shrinking, replay.
//
//   pbt list
//   pbt run <property> --cases N --seed S --jobs J --timecap SEC --out result.json --replay file [--known k1,k2]
//   pbt replay <file>
//
// Exit codes of run: 0 nothing found, 1 violation (replay file written), 2 engine error.
#include <sys/mman.h>
#include <sys/prctl.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define VH_MSAN 1
#endif
#endif
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <atomic>
#include <algorithm>
#include <set>
#include "core.hpp"

namespace vh
{
static double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static std::set<std::string> g_known;

struct Slot
{
  std::atomic<long> beat;   // number of cases started by this worker
  std::atomic<long> index;  // case under evaluation
  std::atomic<int> done;
  std::atomic<long> evals, nontrivial;
  Case cur;
  std::atomic<int> failed;
  long fail_index;
  Case fail_case;
  char fail_msg[1024];
};
struct Shared
{
  std::atomic<long> min_fail;
  Slot slot[64];
};
// result of one evaluation in a child process
struct Cell
{
  int finished;
  int ok;
  char msg[1024];
};

template <class T>
static T *shared_alloc()
{
  void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
  {
    perror("mmap");
    exit(2);
  }
  return new (p) T();
}

static uint64_t hash_case(const Case &c)
{
  uint64_t h = 1469598103934665603ULL ^ (uint64_t)c.space;
  for (int i = 0; i < F_E0 + c.nx; i++)
  {
    uint64_t b;
    memcpy(&b, &c.v[i], 8);
    h = (h ^ b) * 1099511628211ULL;
    h ^= h >> 29;
  }
  return h;
}

static uint64_t str_hash(const char *s)
{
  uint64_t h = 14695981039346656037ULL;
  for (; *s; s++)
    h = (h ^ (unsigned char)*s) * 1099511628211ULL;
  return h;
}

static void gen_case(const Property &p, uint64_t seed, long index, Case &c)
{
  Rng r(seed * 0x9e3779b97f4a7c15ULL ^ str_hash(p.id) ^ ((uint64_t)index * 0xd1342543de82ef95ULL));
  p.gen(r, c);
}

static void settle_known(Outcome &o)
{
  // a known finding that the committed list does not contain is an ordinary violation
  if (!o.known.empty() && !g_known.count(o.known) && o.ok)
  {
    o.ok = false;
    if (o.msg.empty())
      o.msg = "finding " + o.known + " is not in the list of known findings";
  }
}

// Evaluate in a forked child: crashes, aborts (sanitizers) and hangs become failures. Returns true if it failed.
struct History
{
  uint64_t seed = 0;
  long start = -1, step = 1, index = -1;
};
static bool eval_forked(const Property &p, const Case &c, double timeout, std::string *msg, const History *hist = nullptr)
{
  static Cell *cell = shared_alloc<Cell>();
  cell->finished = 0;
  cell->ok = 1;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!getenv("VH_VERBOSE"))
    {
      FILE *f = freopen("/dev/null", "w", stderr);
      (void)f;
    }
    if (hist)
      for (long i = hist->start; i < hist->index; i += hist->step)
      {
        Case h;
        Outcome o;
        gen_case(p, hist->seed, i, h);
        p.eval(h, o);
      }
    Outcome o;
    p.eval(c, o);
    settle_known(o);
    snprintf(cell->msg, sizeof cell->msg, "%s", o.msg.c_str());
    cell->ok = o.ok;
    cell->finished = 1;
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  bool hung = false;
  while (true)
  {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid)
      break;
    if (now() - t0 > timeout)
    {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      hung = true;
      break;
    }
    usleep(now() - t0 < 0.05 ? 100 : 2000);
  }
  if (hung)
  {
    if (msg)
      *msg = "does not terminate within the time limit";
    return true;
  }
  if (!cell->finished)
  {
    if (msg)
    {
      char b[128];
      if (WIFSIGNALED(st))
        snprintf(b, sizeof b, "the process died with signal %d", WTERMSIG(st));
      else
        snprintf(b, sizeof b, "the process exited with status %d", WEXITSTATUS(st));
      *msg = b;
    }
    return true;
  }
  if (msg)
    *msg = cell->msg;
  return !cell->ok;
}

static std::string esc(const std::string &s)
{
  std::string o;
  for (char ch : s)
  {
    if (ch == '"' || ch == '\\')
      o += '\\';
    if ((unsigned char)ch < 32)
      o += ' ';
    else
      o += ch;
  }
  return o;
}

static std::string case_text(const Case &c)
{
  char b[768];
  snprintf(b, sizeof b,
           "%s[%s] kappa=%.9g sigma=%.9g disc=%.6g start=(%.9g,%.9g,%.9g,k=%.9g) goal=(%.9g,%.9g,%.9g,k=%.9g)",
           c.space >= 0 && c.space < N_SPACES ? kInfo[c.space].name : "-", class_name(c.cls), c.kappa(), c.sigma(),
           c.disc(), c.v[F_SX], c.v[F_SY], c.v[F_ST], c.v[F_SK], c.v[F_GX], c.v[F_GY], c.v[F_GT], c.v[F_GK]);
  std::string s = b;
  if (c.nx)
  {
    s += " extra=(";
    for (int i = 0; i < c.nx; i++)
    {
      snprintf(b, sizeof b, "%s%.9g", i ? "," : "", c.v[F_E0 + i]);
      s += b;
    }
    s += ")";
  }
  return s;
}

static bool write_replay(const char *path, const Property &p, const Case &c, const std::string &msg,
                         const History *h = nullptr)
{
  FILE *f = fopen(path, "w");
  if (!f)
    return false;
  fprintf(f, "{\n  \"property\": \"%s\",\n  \"space\": %d,\n  \"class\": %d,\n  \"extras\": %d,\n", p.id, c.space, c.cls,
          c.nx);
  fprintf(f, "  \"text\": \"%s\",\n  \"message\": \"%s\",\n  \"values\": [", esc(case_text(c)).c_str(),
          esc(msg).c_str());
  for (int i = 0; i < F_E0 + c.nx; i++)
    fprintf(f, "%s\"%a\"", i ? ", " : "", c.v[i]);
  fprintf(f, "]");
  if (h)  // the failure needs earlier cases in the same process
    fprintf(f, ",\n  \"history_seed\": %llu,\n  \"history_start\": %ld,\n  \"history_step\": %ld,\n  \"history_index\": %ld",
            (unsigned long long)h->seed, h->start, h->step, h->index);
  fprintf(f, "\n}\n");
  fclose(f);
  return true;
}

static bool read_replay(const char *path, std::string &prop, Case &c, History &h)
{
  FILE *f = fopen(path, "r");
  if (!f)
    return false;
  std::string s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    s.append(b, n);
  fclose(f);
  auto field = [&](const char *k) { return s.find(std::string("\"") + k + "\":"); };
  size_t a = field("property");
  if (a == std::string::npos)
    return false;
  a = s.find('"', a + 11);
  size_t e = s.find('"', a + 1);
  prop = s.substr(a + 1, e - a - 1);
  auto num = [&](const char *k) { return atoi(s.c_str() + s.find(':', field(k)) + 1); };
  c.space = num("space");
  c.cls = num("class");
  c.nx = num("extras");
  size_t v = field("values");
  v = s.find('[', v);
  for (int i = 0; i < F_E0 + c.nx; i++)
  {
    v = s.find('"', v) + 1;
    c.v[i] = strtod(s.c_str() + v, nullptr);
    v = s.find('"', v) + 1;
  }
  if (field("history_index") != std::string::npos)
  {
    h.seed = strtoull(s.c_str() + s.find(':', field("history_seed")) + 1, nullptr, 10);
    h.start = num("history_start");
    h.step = num("history_step");
    h.index = num("history_index");
  }
  return true;
}

// ---------------------------------------------------------------- shrinking
static double round_to(double x, double q)
{
  return std::round(x / q) * q;
}

static Case shrink(const Property &p, Case best, double budget_s, int &tried)
{
  double t_end = now() + budget_s;
  tried = 0;
  auto attempt = [&](Case c) {
    if (now() > t_end)
      return false;
    if (memcmp(c.v, best.v, sizeof c.v) == 0)
      return false;
    if (!domain_ok(c) || !p.valid(c))
      return false;
    tried++;
    if (!eval_forked(p, c, 20, nullptr))
      return false;
    best = c;
    return true;
  };
  bool progress = true;
  for (int round = 0; round < 4 && progress && now() < t_end; round++)
  {
    progress = false;
    // whole-case simplifications: move the query to the origin, unit parameters
    {
      Case c = best;
      double st = c.v[F_ST], dx = c.v[F_GX] - c.v[F_SX], dy = c.v[F_GY] - c.v[F_SY];
      c.v[F_GX] = dx * std::cos(st) + dy * std::sin(st);
      c.v[F_GY] = -dx * std::sin(st) + dy * std::cos(st);
      c.v[F_GT] = wrap(c.v[F_GT] - st);
      c.v[F_SX] = c.v[F_SY] = c.v[F_ST] = 0;
      progress |= attempt(c);
    }
    {
      Case c = best;  // scale to kappa = 1
      double k = c.v[F_KAPPA];
      if (k > 0 && k != 1)
      {
        c.v[F_KAPPA] = 1, c.v[F_SIGMA] /= k * k, c.v[F_DISC] *= k;
        c.v[F_SX] *= k, c.v[F_SY] *= k, c.v[F_GX] *= k, c.v[F_GY] *= k;
        c.v[F_SK] /= k, c.v[F_GK] /= k;
        progress |= attempt(c);
      }
    }
    for (int i = 0; i < F_E0 + best.nx; i++)
    {
      std::vector<double> cand;
      double x = best.v[i];
      if (i == F_KAPPA || i == F_SIGMA)
        cand = { 1.0, round_to(x, 0.1), round_to(x, 0.01) };
      else if (i == F_DISC)
        cand = { 0.1, 1.0, round_to(x, 0.01) };
      else if (i == F_SK || i == F_GK)
        cand = { 0.0, best.v[F_KAPPA], -best.v[F_KAPPA], round_to(x, 0.1) };
      else if (i >= F_E0 && x == std::floor(x) && x > 1)
        cand = { 0.0, 1.0, std::floor(x / 2), x - 1 };
      else
        cand = { 0.0, wrap(x), round_to(x, 1.0), round_to(x, kPi / 4), round_to(x, 0.1), round_to(x, 0.01),
                 round_to(x, 0.001) };
      for (double y : cand)
        if (y != best.v[i])
        {
          Case c = best;
          c.v[i] = y;
          if (attempt(c))
          {
            progress = true;
            break;
          }
        }
    }
  }
  return best;
}

// ---------------------------------------------------------------- workers
static void worker(const Property &p, uint64_t seed, long cases, int w, int jobs, double deadline, Shared *sh, long first,
                   const std::string &tmp)
{
  Slot &s = sh->slot[w];
  std::map<std::string, long> labels;
  std::map<std::string, double> stats;
  std::map<std::string, long> known;
  std::vector<uint64_t> distinct;
  std::vector<std::string> samples;
  for (long i = first; i < cases; i += jobs)
  {
    if (i > sh->min_fail.load() || now() > deadline)
      break;
    Case c;
    gen_case(p, seed, i, c);
    s.cur = c;
    s.index = i;
    s.beat++;
    Outcome o;
    p.eval(c, o);
    settle_known(o);
    s.evals++;
    if (!o.ok)
    {
      s.fail_index = i;
      s.fail_case = c;
      snprintf(s.fail_msg, sizeof s.fail_msg, "%s", o.msg.c_str());
      s.failed = 1;
      long m = sh->min_fail.load();
      while (i < m && !sh->min_fail.compare_exchange_weak(m, i))
        ;
      break;
    }
    if (o.nontrivial)
    {
      s.nontrivial++;
      distinct.push_back(hash_case(c));
      if (samples.size() < 3)
        samples.push_back(case_text(c));
    }
    for (auto &l : o.labels)
      labels[l]++;
    for (auto &st : o.stats)
    {
      double &m = stats[st.first];
      if (st.second > m)
        m = st.second;
    }
    if (!o.known.empty())
      known[o.known]++;
  }
  FILE *f = fopen((tmp + "." + std::to_string(w) + "." + std::to_string(first)).c_str(), "w");
  if (f)
  {
    for (auto &l : labels)
      fprintf(f, "L\t%s\t%ld\n", l.first.c_str(), l.second);
    for (auto &l : stats)
      fprintf(f, "S\t%s\t%.17g\n", l.first.c_str(), l.second);
    for (auto &l : known)
      fprintf(f, "K\t%s\t%ld\n", l.first.c_str(), l.second);
    for (auto &l : samples)
      fprintf(f, "X\t%s\t0\n", l.c_str());
    fclose(f);
    f = fopen((tmp + ".h." + std::to_string(w)).c_str(), "w");
    if (f)
    {
      fwrite(distinct.data(), sizeof(uint64_t), distinct.size(), f);
      fclose(f);
    }
  }
  s.done = 1;
}

static int run(const Property &p, long cases, uint64_t seed, int jobs, double timecap, const std::string &out,
               const std::string &replay)
{
  double t0 = now();
  Shared *sh = shared_alloc<Shared>();
  sh->min_fail = cases + 1;
  std::string tmp = out + ".part";
  std::vector<pid_t> pid(jobs);
  std::vector<long> beat(jobs, -1);
  std::vector<double> seen(jobs, now());
  double deadline = t0 + timecap;
  fflush(stdout);
  struct Crash
  {
    long index;
    Case c;
    std::string why;
  };
  std::vector<Crash> crashes;
  double hang_s = getenv("VH_HANG") ? atof(getenv("VH_HANG")) : 40;
  for (int w = 0; w < jobs; w++)
  {
    pid[w] = fork();
    if (pid[w] == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      worker(p, seed, cases, w, jobs, deadline, sh, w, tmp);
      _exit(0);
    }
  }
  int alive = jobs;
  bool engine_error = false;
  while (alive > 0)
  {
    for (int w = 0; w < jobs; w++)
    {
      if (pid[w] <= 0)
        continue;
      int st;
      pid_t r = waitpid(pid[w], &st, WNOHANG);
      Slot &s = sh->slot[w];
      if (r == pid[w])
      {
        pid[w] = 0;
        alive--;
        if (!s.done.load())
        {
          char b[128];
          if (WIFSIGNALED(st))
            snprintf(b, sizeof b, "the process died with signal %d", WTERMSIG(st));
          else
            snprintf(b, sizeof b, "the process exited with status %d", WEXITSTATUS(st));
          crashes.push_back({ s.index.load(), s.cur, b });
          long m = sh->min_fail.load(), i = s.index.load();
          while (i < m && !sh->min_fail.compare_exchange_weak(m, i))
            ;
        }
        continue;
      }
      if (s.beat.load() != beat[w])
      {
        beat[w] = s.beat.load();
        seen[w] = now();
      }
      else if (now() - seen[w] > hang_s)
      {
        kill(pid[w], SIGKILL);
        waitpid(pid[w], &st, 0);
        pid[w] = 0;
        alive--;
        crashes.push_back({ s.index.load(), s.cur, "does not terminate within the time limit" });
        long m = sh->min_fail.load(), i = s.index.load();
        while (i < m && !sh->min_fail.compare_exchange_weak(m, i))
          ;
      }
    }
    usleep(3000);
  }
  // collect
  std::map<std::string, long> labels, known;
  std::map<std::string, double> stats;
  std::vector<uint64_t> distinct;
  std::vector<std::string> samples;
  long evals = 0, nontriv = 0;
  for (int w = 0; w < jobs; w++)
  {
    evals += sh->slot[w].evals;
    nontriv += sh->slot[w].nontrivial;
    std::string fn = tmp + "." + std::to_string(w) + "." + std::to_string(w);
    FILE *f = fopen(fn.c_str(), "r");
    if (!f)
      continue;
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0)
    {
      std::string l = line;
      size_t a = l.find('\t'), b = l.rfind('\t');
      std::string k = l.substr(a + 1, b - a - 1), v = l.substr(b + 1);
      switch (l[0])
      {
        case 'L':
          labels[k] += atol(v.c_str());
          break;
        case 'K':
          known[k] += atol(v.c_str());
          break;
        case 'S':
          stats[k] = std::max(stats[k], atof(v.c_str()));
          break;
        case 'X':
          if (samples.size() < 8)
            samples.push_back(k);
          break;
      }
    }
    free(line);
    fclose(f);
    unlink(fn.c_str());
    fn = tmp + ".h." + std::to_string(w);
    f = fopen(fn.c_str(), "r");
    if (f)
    {
      uint64_t buf[4096];
      size_t n;
      while ((n = fread(buf, sizeof(uint64_t), 4096, f)) > 0)
        distinct.insert(distinct.end(), buf, buf + n);
      fclose(f);
      unlink(fn.c_str());
    }
  }
  std::sort(distinct.begin(), distinct.end());
  distinct.erase(std::unique(distinct.begin(), distinct.end()), distinct.end());
  double explore_s = now() - t0;
  // smallest failing case, confirmed by re-evaluation in fresh processes
  bool violation = false;
  std::string vmsg, vtext;
  int confirmed = 0, tried = 0;
  std::vector<Crash> fails = crashes;
  for (int w = 0; w < jobs; w++)
    if (sh->slot[w].failed.load())
      fails.push_back({ sh->slot[w].fail_index, sh->slot[w].fail_case, sh->slot[w].fail_msg });
  std::sort(fails.begin(), fails.end(), [](const Crash &a, const Crash &b) { return a.index < b.index; });
  std::vector<std::string> unconfirmed;
  for (auto &fl : fails)
  {
    confirmed = 0;
    std::string m = fl.why;
    const bool racy = p.repeats > 3;
    for (int i = 0; i < p.repeats && (!racy || !confirmed); i++)
    {
      std::string mm;
      double tc = now();
      if (eval_forked(p, fl.c, 2 * hang_s, &mm))
        confirmed++, m = mm;
      if (now() - tc > hang_s)
        break;
    }
    const bool answer = fl.why.find("terminate") == std::string::npos && fl.why.find("signal 9") == std::string::npos;
    if (!confirmed && racy && answer)
    {
      violation = true;
      vmsg = fl.why + " (depends on the schedule, seen once)";
      vtext = case_text(fl.c);
      write_replay(replay.c_str(), p, fl.c, vmsg);
      break;
    }
    if (!confirmed && fl.why.find("terminate") == std::string::npos)
    {
      // not reproducible on its own: does it follow from the cases before it in the same process?
      History h;
      h.seed = seed, h.step = jobs, h.index = fl.index;
      long w0 = fl.index % jobs;
      for (long n = 1;; n *= 4)
      {
        h.start = std::max(w0, fl.index - n * jobs);
        std::string mm;
        if (eval_forked(p, fl.c, 120, &mm, &h))
        {
          violation = true;
          confirmed = 1;
          vmsg = mm + " (after " + std::to_string((h.index - h.start) / h.step) + " earlier cases in the same process)";
          vtext = case_text(fl.c);
          write_replay(replay.c_str(), p, fl.c, vmsg, &h);
          break;
        }
        if (h.start == w0)
          break;
      }
      if (violation)
        break;
    }
    if (!confirmed)
    {
      unconfirmed.push_back(fl.why + ": " + case_text(fl.c));
      continue;
    }
    violation = true;
    Case small = shrink(p, fl.c, 25, tried);
    std::string sm;
    bool fails_small = false;
    for (int i = 0; i < (racy ? p.repeats : 1) && !fails_small; i++)
      fails_small = eval_forked(p, small, 3 * hang_s, &sm);
    if (fails_small)
    {
      vmsg = sm;
      vtext = case_text(small);
      write_replay(replay.c_str(), p, small, sm);
    }
    else
    {
      vmsg = m;
      vtext = case_text(fl.c);
      write_replay(replay.c_str(), p, fl.c, m);
    }
    break;
  }
  FILE *f = fopen(out.c_str(), "w");
  if (!f)
    return 2;
  fprintf(f, "{\n\"property\": \"%s\", \"rule\": \"%s\",\n", p.id, esc(p.rule).c_str());
  fprintf(f, "\"evaluations\": %ld, \"nontrivial\": %ld, \"distinct_nontrivial\": %zu,\n", evals, nontriv,
          distinct.size());
  fprintf(f, "\"requested\": %ld, \"explore_s\": %.3f, \"wall_s\": %.3f, \"jobs\": %d, \"seed\": %llu,\n", cases,
          explore_s, now() - t0, jobs, (unsigned long long)seed);
  auto dump = [&](const char *name, auto &m) {
    fprintf(f, "\"%s\": {", name);
    bool first = true;
    for (auto &l : m)
    {
      fprintf(f, "%s\"%s\": %.6g", first ? "" : ", ", esc(l.first).c_str(), (double)l.second);
      first = false;
    }
    fprintf(f, "},\n");
  };
  dump("labels", labels);
  dump("max_error_over_tolerance", stats);
  dump("known", known);
  auto list = [&](const char *name, const std::vector<std::string> &v) {
    fprintf(f, "\"%s\": [", name);
    for (size_t i = 0; i < v.size(); i++)
      fprintf(f, "%s\"%s\"", i ? ", " : "", esc(v[i]).c_str());
    fprintf(f, "],\n");
  };
  list("samples", samples);
  list("unconfirmed", unconfirmed);
  fprintf(f, "\"violation\": %s, \"message\": \"%s\", \"case\": \"%s\", \"confirmed\": %d, \"shrink_steps\": %d\n}\n",
          violation ? "true" : "false", esc(vmsg).c_str(), esc(vtext).c_str(), confirmed, tried);
  fclose(f);
  if (violation)
    printf("FOUND %s: %s\n  %s\n", p.id, vmsg.c_str(), vtext.c_str());
  if (engine_error)
    return 2;
  return violation ? 1 : 0;
}
}  // namespace vh

using namespace vh;
int main(int argc, char **argv)
{
#ifdef VH_MSAN
  __msan_scoped_disable_interceptor_checks();  // of the harness's own file names
#endif
  std::string cmd = argc > 1 ? argv[1] : "";
  auto opt = [&](const char *name, const char *dflt) -> std::string {
    for (int i = 2; i + 1 < argc; i++)
      if (std::string(argv[i]) == std::string("--") + name)
        return argv[i + 1];
    return dflt;
  };
  auto find = [&](const std::string &id) -> const Property * {
    for (auto &p : registry())
      if (id == p.id)
        return &p;
    return nullptr;
  };
  std::string kn = opt("known", "");
  for (size_t a = 0; a < kn.size();)
  {
    size_t b = kn.find(',', a);
    if (b == std::string::npos)
      b = kn.size();
    g_known.insert(kn.substr(a, b - a));
    a = b + 1;
  }
  if (cmd == "list")
  {
    for (auto &p : registry())
      printf("%s %ld %ld\n", p.id, p.quick_cases, p.thorough_cases);
    return 0;
  }
  if (cmd == "replay" && argc > 2)
  {
    std::string id;
    Case c;
    History h;
    if (!read_replay(argv[2], id, c, h))
      return 2;
    const Property *p = find(id);
    if (!p)
      return 2;
    printf("%s\n", case_text(c).c_str());
    std::string m;
    bool bad = false;
    for (int i = 0; i < (p->repeats > 3 ? 10 * p->repeats : 1) && !bad; i++)
      bad = eval_forked(*p, c, 120, &m, h.index >= 0 ? &h : nullptr);
    printf("%s: %s %s\n", id.c_str(), bad ? "FAILS" : "holds", m.c_str());
    return bad ? 1 : 0;
  }
  if (cmd == "run" && argc > 2)
  {
    const Property *p = find(argv[2]);
    if (!p)
    {
      fprintf(stderr, "no such property %s\n", argv[2]);
      return 2;
    }
    long n = atol(opt("cases", "0").c_str());
    if (n <= 0)
      n = opt("tier", "quick") == "quick" ? p->quick_cases : p->thorough_cases;
    n = (long)(n * atof(opt("scale", "1").c_str()));
    if (n < 1)
      n = 1;
    return run(*p, n, strtoull(opt("seed", "1").c_str(), nullptr, 10),
               std::min(64, std::max(1, atoi(opt("jobs", "8").c_str()))), atof(opt("timecap", "600").c_str()),
               opt("out", "result.json"), opt("replay", "replay.json"));
  }
  fprintf(stderr, "usage: pbt list | run <property> ... | replay <file>\n");
  return 2;
}
