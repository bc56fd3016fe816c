#include "pbt.hh"
#include <algorithm>
#include <unordered_set>
#include <string.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>

namespace pbt {

static const size_t MAX_CHOICES = 60000;

struct Slot // shared memory: what a child is doing right now
{
  volatile uint64_t index;
  volatile uint64_t started;        // number of cases started, for the watchdog
  volatile uint32_t state;          // 0 idle, 1 running, 2 failed
  volatile uint32_t n;
  char kind[64];
  char msg[4000];
  char desc[6000];
  uint64_t choices[MAX_CHOICES];
};
static Slot *live = nullptr;

std::string
fmt (const char *f, ...)
{
  char buf[8192];
  va_list ap;
  va_start (ap, f);
  vsnprintf (buf, sizeof (buf), f, ap);
  va_end (ap);
  return buf;
}
void
fail (const char *kind, const char *f, ...)
{
  char buf[8192];
  va_list ap;
  va_start (ap, f);
  vsnprintf (buf, sizeof (buf), f, ap);
  va_end (ap);
  throw Fail { kind, buf };
}
uint64_t
mix64 (uint64_t x)
{
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
void
Src::record (uint64_t v)
{
  rec.push_back (v);
  if (live && live->n < MAX_CHOICES)
    {
      live->choices[live->n] = v;
      live->n = live->n + 1;
    }
}
uint64_t
Src::draw (uint64_t n)
{
  uint64_t v = 0;
  if (mode == RNG)
    v = rng.below (n);
  else if (mode == REPLAY)
    {
      v = list_pos < list_len ? list[list_pos] : 0;
      list_pos++;
      if (n == 0 || v >= n)
        v = n ? n - 1 : 0;
    }
  else if (n > 1 && bytes_pos >= bytes_len && tail_seed)
    v = mix64 (tail_seed * 0x9e3779b97f4a7c15ull + rec.size()) % n;
  else if (n > 1)
    {
      int k = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ull ? 4 : 8;
      for (int i = 0; i < k; i++)
        v |= uint64_t (bytes_pos < bytes_len ? bytes[bytes_pos++] : 0) << (8 * i);
      v %= n;
    }
  record (v);
  return v;
}
uint64_t
Src::stratum (uint64_t n)
{
  if (mode != RNG)
    return draw (n);
  // every n cases are a permutation of all values, a different one each time: a worker, which runs every 8th case, has to
  // see all combinations of configurations, in any order
  uint64_t h = mix64 (stratum_seed + mix64 (case_index / n + 1) + n * 0x9e3779b97f4a7c15ull);
  uint64_t a = 1 + (h >> 33) % n;
  while (std::__gcd (a, n) != 1)
    a++;
  uint64_t v = ((case_index % n) * a + (h & 0x7fffffff)) % n;
  record (v);
  return v;
}
unsigned
Src::weighted (std::initializer_list<unsigned> w)
{
  unsigned total = 0;
  for (unsigned x : w)
    total += x;
  unsigned v = draw (total), i = 0;
  for (unsigned x : w)
    {
      if (v < x)
        return i;
      v -= x;
      i++;
    }
  return 0;
}
void
Ctx::note (const char *f, ...)
{
  if (!want_desc)
    return;
  char buf[4096];
  va_list ap;
  va_start (ap, f);
  vsnprintf (buf, sizeof (buf), f, ap);
  va_end (ap);
  if (desc.size() < 5000)
    desc += buf;
}
std::vector<Prop>&
registry()
{
  static std::vector<Prop> r;
  return r;
}

static double
now()
{
  timespec ts;
  clock_gettime (CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static uint64_t
hash_str (const char *s)
{
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++)
    h = (h ^ (unsigned char) *s) * 1099511628211ull;
  return h;
}
static uint64_t
hash_choices (const std::vector<uint64_t>& v)
{
  uint64_t h = 0x1234567;
  for (uint64_t x : v)
    h = mix64 (h ^ x) + 0x9e3779b97f4a7c15ull;
  return h;
}
static std::string
json_str (const std::string& s)
{
  std::string o = "\"";
  for (unsigned char ch : s)
    {
      if (ch == '"' || ch == '\\')
        { o += '\\'; o += ch; }
      else if (ch < 32 || ch > 126)
        o += fmt ("\\u%04x", ch);
      else
        o += ch;
    }
  return o + "\"";
}

struct Stats
{
  uint64_t evaluations = 0, nontrivial = 0, choices = 0;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

static void
set_fail (Slot *slot, const std::string& kind, const std::string& msg, const std::string& desc)
{
  snprintf (slot->kind, sizeof (slot->kind), "%s", kind.c_str());
  snprintf (slot->msg, sizeof (slot->msg), "%s", msg.c_str());
  snprintf (slot->desc, sizeof (slot->desc), "%s", desc.c_str());
  slot->state = 2;
}

static Slot *
new_slot()
{
  void *p = mmap (nullptr, sizeof (Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
    { perror ("mmap"); exit (2); }
  return (Slot *) p;
}

static void
worker (const Prop& prop, uint64_t seed, uint64_t first, uint64_t step, uint64_t n_cases, double deadline, int effort, Slot *slot, int out_fd)
{
  live = slot;
  Stats st;
  uint64_t base = mix64 (seed * 0x9e3779b97f4a7c15ull + hash_str (prop.name));
  uint64_t next_sample = 0;
  for (uint64_t i = first; i < n_cases; i += step)
    {
      if (now() > deadline)
        break;
      Src s;
      s.mode = Src::RNG;
      s.rng = Rng (mix64 (base ^ mix64 (i + 1)));
      s.case_index = i;
      s.stratum_seed = seed;
      Ctx c;
      c.effort = effort;
      c.want_desc = st.samples.size() < 4 && i >= next_sample;
      slot->n = 0;
      slot->index = i;
      slot->started = slot->started + 1;
      slot->state = 1;
      try
        {
          prop.fn (s, c);
        }
      catch (Fail& f)
        {
          set_fail (slot, f.kind, f.msg, c.desc);
          _exit (3);
        }
      catch (std::exception& e)
        {
          set_fail (slot, "exception", e.what(), c.desc);
          _exit (3);
        }
      slot->state = 0;
      st.evaluations++;
      st.choices += s.rec.size();
      for (auto& l : c.labels)
        st.labels[l]++;
      if (c.is_nontrivial)
        {
          st.nontrivial++;
          st.hashes.insert (hash_choices (s.rec));
          if (c.want_desc)
            {
              st.samples.push_back (fmt ("case %llu: ", (unsigned long long) i) + c.desc);
              next_sample = i * 4 + 1;
            }
        }
    }
  FILE *f = fdopen (out_fd, "w");
  fprintf (f, "E %llu %llu %llu\n", (unsigned long long) st.evaluations, (unsigned long long) st.nontrivial, (unsigned long long) st.choices);
  for (auto& l : st.labels)
    fprintf (f, "L %llu %s\n", (unsigned long long) l.second, l.first.c_str());
  for (auto& x : st.samples)
    fprintf (f, "S %s\n", json_str (x).c_str());
  for (uint64_t h : st.hashes)
    fprintf (f, "H %llx\n", (unsigned long long) h);
  fprintf (f, "D\n");
  fclose (f);
  fflush (nullptr);
  // exit through the sanitizer's atexit handlers is not wanted: leaks are checked by the properties
  _exit (0);
}

// properties whose cases take long by design run with a larger time limit per case
static double
slow_factor()
{
  static double f = getenv ("PBT_SLOW") ? atof (getenv ("PBT_SLOW")) : 1;
  return f;
}
struct Outcome { int status; std::string kind, msg, desc; std::vector<uint64_t> used; }; // status: 0 pass 1 fail 2 crash 3 timeout

static std::string
read_tail (const char *path, size_t max)
{
  std::string s;
  FILE *f = fopen (path, "r");
  if (!f)
    return s;
  char buf[4096];
  size_t k;
  while ((k = fread (buf, 1, sizeof (buf), f)) > 0 && s.size() < (1 << 20))
    s.append (buf, k);
  fclose (f);
  size_t p = s.find ("ERROR: ");
  size_t q = s.find ("runtime error");
  if (q != std::string::npos && q < p)
    p = s.rfind ('\n', q) == std::string::npos ? 0 : s.rfind ('\n', q) + 1;
  if (p != std::string::npos)
    s = s.substr (p);
  if (s.size() > max)
    s = s.substr (0, max);
  return s;
}

static Outcome
run_once (const Prop& prop, const std::vector<uint64_t>& choices, int effort, double timeout, const std::string& errfile)
{
  static Slot *slot = new_slot();
  memset ((void *) slot, 0, offsetof (Slot, choices));
  fflush (nullptr);
  pid_t pid = fork();
  if (pid == 0)
    {
      prctl (PR_SET_PDEATHSIG, SIGKILL);
      int fd = open (errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2 (fd, 2);
      live = slot;
      Src s;
      s.mode = Src::REPLAY;
      s.list = choices.data();
      s.list_len = choices.size();
      Ctx c;
      c.effort = effort;
      c.want_desc = true;
      slot->state = 1;
      try
        {
          prop.fn (s, c);
        }
      catch (Fail& f)
        {
          set_fail (slot, f.kind, f.msg, c.desc);
          _exit (3);
        }
      catch (std::exception& e)
        {
          set_fail (slot, "exception", e.what(), c.desc);
          _exit (3);
        }
      snprintf (slot->desc, sizeof (slot->desc), "%s", c.desc.c_str());
      slot->state = 0;
      _exit (0);
    }
  double t0 = now();
  int st = 0;
  bool timed_out = false;
  for (;;)
    {
      pid_t r = waitpid (pid, &st, WNOHANG);
      if (r == pid)
        break;
      if (now() - t0 > timeout * slow_factor())
        {
          kill (pid, SIGKILL);
          waitpid (pid, &st, 0);
          timed_out = true;
          break;
        }
      usleep (now() - t0 < 0.02 ? 300 : 3000);
    }
  Outcome o;
  o.used.assign (slot->choices, slot->choices + slot->n);
  o.desc = slot->desc;
  if (timed_out)
    { o.status = 3; o.kind = "hang"; o.msg = fmt ("no result after %g s", timeout); }
  else if (WIFEXITED (st) && WEXITSTATUS (st) == 0)
    o.status = 0;
  else if (WIFEXITED (st) && WEXITSTATUS (st) == 3 && slot->state == 2)
    { o.status = 1; o.kind = slot->kind; o.msg = slot->msg; }
  else
    {
      o.status = 2;
      o.kind = "crash";
      o.msg = WIFSIGNALED (st) ? fmt ("killed by signal %d (%s)", WTERMSIG (st), strsignal (WTERMSIG (st))) : fmt ("exit status %d", WEXITSTATUS (st));
      std::string tail = read_tail (errfile.c_str(), 1500);
      if (tail.size())
        o.msg += "\n" + tail;
    }
  return o;
}

static std::vector<uint64_t>
shrink (const Prop& prop, std::vector<uint64_t> best, Outcome& out, int effort, const std::string& errfile, double budget, int& evals)
{
  double t0 = now();
  std::string kind = out.kind;
  auto try_it = [&] (const std::vector<uint64_t>& cand) {
    if (cand == best || now() - t0 > budget)
      return false;
    evals++;
    Outcome o = run_once (prop, cand, effort, 20, errfile);
    if (o.status == 0 || o.status == 3 || o.kind != kind)
      return false;
    // trim choices which were not consumed
    std::vector<uint64_t> c = cand;
    if (o.used.size() < c.size())
      c.resize (o.used.size());
    best = c;
    out = o;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget)
    {
      progress = false;
      for (size_t len = std::max<size_t> (1, best.size() / 2); len >= 1; len /= 2)   // delete chunks
        {
          for (size_t p = 0; p + len <= best.size() && now() - t0 < budget;)
            {
              std::vector<uint64_t> c = best;
              c.erase (c.begin() + p, c.begin() + p + len);
              if (try_it (c))
                progress = true;
              else
                p += len;
            }
        }
      for (size_t len = std::max<size_t> (1, best.size() / 4); len >= 1; len /= 2)   // zero chunks
        {
          for (size_t p = 0; p < best.size() && now() - t0 < budget; p += len)
            {
              std::vector<uint64_t> c = best;
              bool any = false;
              for (size_t i = p; i < std::min (p + len, c.size()); i++)
                {
                  any |= c[i] != 0;
                  c[i] = 0;
                }
              if (any && try_it (c))
                progress = true;
            }
        }
      for (size_t p = 0; p < best.size() && now() - t0 < budget; p++)                // minimize values
        {
          uint64_t lo = 0;
          int steps = 0;
          while (p < best.size() && best[p] > lo && steps++ < 40 && now() - t0 < budget)
            {
              std::vector<uint64_t> c = best;
              c[p] = lo + (best[p] - lo) / 2;
              if (try_it (c))
                progress = true;
              else
                lo = c[p] + 1;
            }
          if (p < best.size() && best[p] > 0)
            {
              std::vector<uint64_t> c = best;
              c[p]--;
              if (try_it (c))
                progress = true;
            }
        }
    }
  return best;
}

static void
write_replay (const std::string& path, const char *prop, const std::vector<uint64_t>& choices, int effort, const Outcome& o)
{
  FILE *f = fopen (path.c_str(), "w");
  if (!f)
    { perror (path.c_str()); exit (2); }
  fprintf (f, "prop %s\neffort %d\nkind %s\nchoices", prop, effort, o.kind.c_str());
  for (uint64_t c : choices)
    fprintf (f, " %llu", (unsigned long long) c);
  fprintf (f, "\n");
  auto lines = [&] (const char *key, const std::string& s) {
    size_t p = 0;
    while (p < s.size())
      {
        size_t q = s.find ('\n', p);
        if (q == std::string::npos)
          q = s.size();
        fprintf (f, "%s %s\n", key, s.substr (p, q - p).c_str());
        p = q + 1;
      }
  };
  lines ("message", o.msg);
  lines ("case", o.desc);
  fclose (f);
}

static const Prop *
find_prop (const std::string& name)
{
  for (auto& p : registry())
    if (name == p.name)
      return &p;
  fprintf (stderr, "unknown property %s\n", name.c_str());
  exit (2);
}

// runs the cases first, first + step, ... last in one process, as a worker does
static Outcome
run_sequence (const Prop& prop, uint64_t seed, uint64_t first, uint64_t step, uint64_t last, int effort, double timeout, const std::string& errfile)
{
  static Slot *slot = new_slot();
  memset ((void *) slot, 0, offsetof (Slot, choices));
  fflush (nullptr);
  pid_t pid = fork();
  if (pid == 0)
    {
      prctl (PR_SET_PDEATHSIG, SIGKILL);
      int fd = open (errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2 (fd, 2);
      worker (prop, seed, first, step, last + 1, now() + timeout, effort, slot, open ("/dev/null", O_WRONLY));
    }
  int st = 0;
  waitpid (pid, &st, 0);
  Outcome o;
  o.status = 0;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0)
    return o;
  o.desc = slot->desc;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 3 && slot->state == 2)
    { o.status = 1; o.kind = slot->kind; o.msg = slot->msg; }
  else
    {
      o.status = 2;
      o.kind = "crash";
      o.msg = (WIFSIGNALED (st) ? fmt ("killed by signal %d (%s)\n", WTERMSIG (st), strsignal (WTERMSIG (st))) : fmt ("exit status %d\n", WEXITSTATUS (st)))
            + read_tail (errfile.c_str(), 1500);
    }
  return o;
}

static int
cmd_run (const Prop& prop, uint64_t seed, uint64_t n_cases, int n_workers, double cap, int effort, const std::string& out, const std::string& failfile, double shrink_budget)
{
  double t0 = now(), deadline = t0 + cap;
  std::vector<Slot *> slots;
  std::vector<pid_t> pids;
  std::vector<int> fds;
  std::string errbase = out + ".err";
  for (int w = 0; w < n_workers; w++)
    {
      Slot *slot = new_slot();
      int p[2];
      if (pipe (p))
        { perror ("pipe"); exit (2); }
      fflush (nullptr);
      pid_t pid = fork();
      if (pid == 0)
        {
          prctl (PR_SET_PDEATHSIG, SIGKILL);
          close (p[0]);
          int fd = open (fmt ("%s%d", errbase.c_str(), w).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
          dup2 (fd, 2);
          close (fd);
          worker (prop, seed, w, n_workers, n_cases, deadline, effort, slot, p[1]);
        }
      close (p[1]);
      slots.push_back (slot);
      pids.push_back (pid);
      fds.push_back (p[0]);
    }
  Stats total;
  int failed = -1;
  Outcome first;
  std::vector<std::string> bufs (n_workers);
  std::vector<bool> done (n_workers, false), reaped (n_workers, false);
  std::vector<uint64_t> last_started (n_workers, 0);
  std::vector<double> last_change (n_workers, now());
  int n_done = 0;
  while (n_done < n_workers && failed < 0)
    {
      std::vector<pollfd> pf;
      std::vector<int> who;
      for (int w = 0; w < n_workers; w++)
        if (!done[w])
          {
            pf.push_back ({ fds[w], POLLIN, 0 });
            who.push_back (w);
          }
      poll (pf.data(), pf.size(), 500);
      for (size_t k = 0; k < pf.size(); k++)
        {
          int w = who[k];
          if (pf[k].revents)
            {
              char buf[65536];
              ssize_t r = read (fds[w], buf, sizeof (buf));
              if (r > 0)
                bufs[w].append (buf, r);
              else
                {
                  int st;
                  waitpid (pids[w], &st, 0);
                  done[w] = reaped[w] = true;
                  n_done++;
                  if (!(WIFEXITED (st) && WEXITSTATUS (st) == 0))
                    {
                      failed = w;
                      first.status = WIFEXITED (st) && WEXITSTATUS (st) == 3 && slots[w]->state == 2 ? 1 : 2;
                      first.kind = first.status == 1 ? slots[w]->kind : "crash";
                      if (first.status == 1)
                        first.msg = slots[w]->msg;
                      else
                        first.msg = (WIFSIGNALED (st) ? fmt ("killed by signal %d (%s)\n", WTERMSIG (st), strsignal (WTERMSIG (st)))
                                                      : fmt ("exit status %d\n", WEXITSTATUS (st))) + read_tail (fmt ("%s%d", errbase.c_str(), w).c_str(), 1500);
                      first.desc = slots[w]->desc;
                      break;
                    }
                }
            }
          else
            {
              if (slots[w]->started != last_started[w] || slots[w]->state != 1)
                {
                  last_started[w] = slots[w]->started;
                  last_change[w] = now();
                }
              else if (now() - last_change[w] > 60 * slow_factor())
                {
                  failed = w;
                  first.status = 3;
                  first.kind = "hang";
                  first.msg = fmt ("a case did not finish within %g s", 60 * slow_factor());
                  break;
                }
            }
        }
    }
  for (int w = 0; w < n_workers; w++)
    if (!reaped[w])
      {
        kill (pids[w], SIGKILL);
        waitpid (pids[w], nullptr, 0);
      }
  for (int w = 0; w < n_workers; w++)
    {
      size_t p = 0;
      auto& b = bufs[w];
      while (p < b.size())
        {
          size_t q = b.find ('\n', p);
          if (q == std::string::npos)
            break;
          std::string l = b.substr (p, q - p);
          p = q + 1;
          unsigned long long a, bb, cc;
          if (l[0] == 'E' && sscanf (l.c_str(), "E %llu %llu %llu", &a, &bb, &cc) == 3)
            { total.evaluations += a; total.nontrivial += bb; total.choices += cc; }
          else if (l[0] == 'L')
            {
              char *end;
              a = strtoull (l.c_str() + 2, &end, 10);
              total.labels[end + 1] += a;
            }
          else if (l[0] == 'S')
            total.samples.push_back (l.substr (2));
          else if (l[0] == 'H')
            total.hashes.insert (strtoull (l.c_str() + 2, nullptr, 16));
        }
      unlink (fmt ("%s%d", errbase.c_str(), w).c_str());
    }
  bool capped = failed < 0 && total.evaluations < n_cases;
  int evals = 0;
  std::string verdict = failed < 0 ? "pass" : "fail";
  if (failed >= 0)
    {
      Slot *slot = slots[failed];
      std::vector<uint64_t> choices (slot->choices, slot->choices + slot->n);
      uint64_t index = slot->index;
      total.evaluations = 0;
      for (int w = 0; w < n_workers; w++)
        total.evaluations += slots[w]->started;
      // reproduce three times, then minimize
      int again = 0;
      Outcome o;
      double tmo = first.status == 3 ? 60 : 30;
      for (int i = 0; i < (first.status == 3 ? 1 : 3); i++)
        {
          Outcome r = run_once (prop, choices, effort, tmo, errbase);
          if (r.status != 0)
            {
              again++;
              o = r;
            }
        }
      fprintf (stderr, "case %llu failed (%s): %s\nreproduced %d times\n", (unsigned long long) index, first.kind.c_str(), first.msg.c_str(), again);
      std::string sequence;
      if (again == 0)
        { // the case alone does not fail: try it after the cases which ran before it in the same process
          for (uint64_t k = 1; first.status != 3; k *= 8)
            {
              uint64_t back = std::min (k, index / n_workers);
              uint64_t start = index - back * n_workers;
              Outcome r = run_sequence (prop, seed, start, n_workers, index, effort, 60, errbase);
              if (r.status != 0)
                {
                  o = r;
                  sequence = fmt ("sequence %llu %llu %d %llu\n", (unsigned long long) seed, (unsigned long long) start, n_workers, (unsigned long long) index);
                  break;
                }
              if (back < k)
                break;
            }
          if (sequence.empty())
            {
              verdict = "unreproducible";
              o = first;
            }
        }
      else if (o.status != 3)
        choices = shrink (prop, choices, o, effort, errbase, shrink_budget, evals);
      write_replay (failfile, prop.name, choices, effort, o);
      if (sequence.size())
        {
          FILE *rf = fopen (failfile.c_str(), "a");
          fputs (sequence.c_str(), rf);
          fclose (rf);
        }
      unlink (errbase.c_str());
    }
  FILE *f = fopen (out.c_str(), "w");
  if (!f)
    { perror (out.c_str()); exit (2); }
  fprintf (f, "{\"prop\": \"%s\", \"verdict\": \"%s\", \"evaluations\": %llu, \"nontrivial\": %llu, \"choices\": %llu, \"capped\": %s, \"shrink_evals\": %d, \"wall_s\": %.3f,\n \"rule\": %s,\n \"labels\": {",
           prop.name, verdict.c_str(), (unsigned long long) total.evaluations, (unsigned long long) total.nontrivial, (unsigned long long) total.choices, capped ? "true" : "false", evals, now() - t0, json_str (prop.rule).c_str());
  const char *sep = "";
  for (auto& l : total.labels)
    {
      fprintf (f, "%s%s: %llu", sep, json_str (l.first).c_str(), (unsigned long long) l.second);
      sep = ", ";
    }
  fprintf (f, "},\n \"samples\": [");
  sep = "";
  std::sort (total.samples.begin(), total.samples.end(), [] (const std::string& a, const std::string& b) { return atoll (a.c_str() + 6) < atoll (b.c_str() + 6); });
  for (size_t i = 0; i < total.samples.size(); i++)
    if (i < 4 || i + 4 >= total.samples.size())
      {
        fprintf (f, "%s\n  %s", sep, total.samples[i].c_str());
        sep = ",";
      }
  fprintf (f, "],\n \"distinct_nontrivial\": %zu}\n", total.hashes.size());
  fclose (f);
  if (verdict == "unreproducible")
    return 4;
  return failed < 0 ? 0 : 1;
}

static int
cmd_replay (const std::string& path, const std::string& tmp)
{
  FILE *f = fopen (path.c_str(), "r");
  if (!f)
    { perror (path.c_str()); return 2; }
  std::string all;
  char buf[65536];
  size_t k;
  while ((k = fread (buf, 1, sizeof (buf), f)) > 0)
    all.append (buf, k);
  fclose (f);
  std::string name;
  int effort = 1;
  std::vector<uint64_t> choices;
  unsigned long long sq[4] = { 0, 0, 0, 0 };
  size_t p = 0;
  while (p < all.size())
    {
      size_t q = all.find ('\n', p);
      if (q == std::string::npos)
        q = all.size();
      std::string l = all.substr (p, q - p);
      p = q + 1;
      if (l.compare (0, 5, "prop ") == 0)
        name = l.substr (5);
      else if (l.compare (0, 7, "effort ") == 0)
        effort = atoi (l.c_str() + 7);
      else if (l.compare (0, 9, "sequence ") == 0)
        sscanf (l.c_str() + 9, "%llu %llu %llu %llu", &sq[0], &sq[1], &sq[2], &sq[3]);
      else if (l.compare (0, 7, "choices") == 0)
        {
          const char *s = l.c_str() + 7;
          char *end;
          for (;;)
            {
              uint64_t v = strtoull (s, &end, 10);
              if (end == s)
                break;
              choices.push_back (v);
              s = end;
            }
        }
    }
  const Prop *prop = find_prop (name);
  Outcome o = sq[2] ? run_sequence (*prop, sq[0], sq[1], sq[2], sq[3], effort, 100, tmp) : run_once (*prop, choices, effort, 100, tmp);
  unlink (tmp.c_str());
  printf ("%s\n", o.desc.c_str());
  if (o.status == 0)
    {
      printf ("replay: property holds for this case\n");
      return 0;
    }
  printf ("replay: %s: %s\n", o.kind.c_str(), o.msg.c_str());
  return 1;
}

int
main (int argc, char **argv)
{
  auto opt = [&] (const char *name, const char *def) -> std::string {
    for (int i = 1; i + 1 < argc; i++)
      if (!strcmp (argv[i], name))
        return argv[i + 1];
    return def;
  };
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list")
    {
      for (auto& p : registry())
        printf ("%s\n", p.name);
      return 0;
    }
  if (cmd == "run" && argc > 2)
    return cmd_run (*find_prop (argv[2]), strtoull (opt ("--seed", "1").c_str(), nullptr, 10), strtoull (opt ("--cases", "1000").c_str(), nullptr, 10),
                    atoi (opt ("--workers", "8").c_str()), atof (opt ("--cap", "300").c_str()), atoi (opt ("--effort", "1").c_str()),
                    opt ("--out", "/tmp/pbt.json"), opt ("--fail", "/tmp/pbt.fail"), atof (opt ("--shrink", "40").c_str()));
  if (cmd == "replay" && argc > 2)
    return cmd_replay (argv[2], opt ("--tmp", (fmt ("/tmp/pbt_replay.%d", getpid())).c_str()));
  fprintf (stderr, "usage: %s list | run PROP [--seed --cases --workers --cap --effort --out --fail] | replay FILE\n", argv[0]);
  return 2;
}

} // namespace pbt

#ifdef PBT_FUZZER
extern "C" int
LLVMFuzzerTestOneInput (const uint8_t *data, size_t size)
{
  using namespace pbt;
  static const Prop *prop = find_prop (getenv ("PBT_PROP") ? getenv ("PBT_PROP") : "");
  Src s;
  s.mode = Src::BYTES;
  s.bytes = data;
  s.bytes_len = size;
  s.tail_seed = size ? data[0] : 0;
  s.bytes_pos = 1;
  Ctx c;
  c.effort = 0;
  static std::string choicefile = getenv ("PBT_CHOICES") ? getenv ("PBT_CHOICES") : "";
  if (!live && choicefile.size())
    { // choices of the running case live in a file mapping, so they survive a crash
      int fd = open (choicefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (ftruncate (fd, sizeof (Slot)) == 0)
        live = (Slot *) mmap (nullptr, sizeof (Slot), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
  if (live)
    {
      live->n = 0;
      live->state = 1;
      live->started = live->started + 1;
    }
  try
    {
      prop->fn (s, c);
    }
  catch (Fail& f)
    {
      if (live)
        set_fail (live, f.kind, f.msg, c.desc);
      fprintf (stderr, "PBT-FAIL %s: %s\n", f.kind.c_str(), f.msg.c_str());
      abort();
    }
  if (live)
    {
      live->state = 0;
      live->index = live->index + c.is_nontrivial;
    }
  return 0;
}
// extracts the choices from such a file: used to turn a crash into a replay file
#else
int
main (int argc, char **argv)
{
  if (argc > 3 && !strcmp (argv[1], "fuzzchoices"))
    {
      using namespace pbt;
      int fd = open (argv[2], O_RDONLY);
      Slot *s = (Slot *) mmap (nullptr, sizeof (Slot), PROT_READ, MAP_SHARED, fd, 0);
      if (fd < 0 || s == MAP_FAILED)
        return 2;
      std::vector<uint64_t> ch (s->choices, s->choices + s->n);
      const Prop *prop = find_prop (argv[3]);
      // confirm and minimize in this (non fuzzing) build
      if (argc > 4)
        {
          std::string tmp = std::string (argv[4]) + ".err";
          Outcome o;
          int again = 0;
          for (int i = 0; i < 3; i++)
            {
              o = run_once (*prop, ch, 0, 30, tmp);
              again += o.status != 0;
            }
          int evals = 0;
          if (again == 3 && o.status != 3)
            ch = shrink (*prop, ch, o, 0, tmp, 30, evals);
          unlink (tmp.c_str());
          if (!again)
            return 4;
          write_replay (argv[4], prop->name, ch, 0, o);
          printf ("%s\n", o.msg.c_str());
          return 1;
        }
      printf ("executions %llu nontrivial %llu\n", (unsigned long long) s->started, (unsigned long long) s->index);
      return 0;
    }
  return pbt::main (argc, argv);
}
#endif
