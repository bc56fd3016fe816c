// C15 C16 C25: precision lookup, diagnostics, self-test
#include "util.hh"
#include "pandaresampler.hh"
#include <stdlib.h>
using std::vector;
using std::string;
using namespace pbt;

extern "C" {
#ifndef SSE_FAULT
struct SseFault { int op, lane, kind; float amount; unsigned every, phase, count[2]; }; // see faulty_sse.h
#endif
extern volatile struct SseFault sse_fault;
volatile struct SseFault sse_fault = { 0, 0, 0, 0, 1, 0, { 0, 0 } };
}

static int
want_precision (unsigned bits)
{
  static const int levels[] = { 1, 8, 12, 16, 20, 24 };
  for (int l : levels)
    if (bits <= (unsigned) l)
      return l;
  return 24;
}
PROPERTY (c15_lookup, "a case is a range of 2^20 arguments of find_precision_for_bits(); with 4096 cases all 2^32 values are enumerated; all cases are non-trivial")
{
  uint64_t chunk = s.stratum (4096);
  c.note ("bits %#llx..%#llx", (unsigned long long) chunk << 20, (unsigned long long) ((chunk + 1) << 20) - 1);
  int last = 0;
  for (uint64_t b = chunk << 20; b < (chunk + 1) << 20; b++)
    {
      int p = A->find_precision (b);
      int want = b > 24 ? 24 : want_precision (b);
      if (p != want)
        fail ("lookup", "find_precision_for_bits (%llu) is %d, expected %d", (unsigned long long) b, p, want);
      if (p < last)
        fail ("monotone", "find_precision_for_bits (%llu) is smaller than for the value before", (unsigned long long) b);
      last = p;
    }
  c.nontrivial();
}
PROPERTY (c15_names, "a case is a sequence of lookups of names and precisions in any order, and the construction of a FIR resampler with a looked up precision; non-trivial: at least two different levels were named")
{
  static const int levels[] = { 1, 8, 12, 16, 20, 24 };
  std::map<int, string> seen;
  unsigned n = 2 + s.draw (30);
  for (unsigned i = 0; i < n; i++)
    {
      if (s.chance (1, 4))
        {
          unsigned bits = s.chance (1, 2) ? s.draw (40) : s.draw (0x100000000ull);
          int p = A->find_precision (bits);
          if (p != want_precision (bits))
            fail ("lookup", "find_precision_for_bits (%u) is %d", bits, p);
          int mode = s.draw (2), sse = s.draw (2);
          unsigned ratio = 1u << s.draw (4);
          c.note ("bits %u ratio %u; ", bits, ratio);
          Capture cap;
          void *r = A->create (mode, ratio, p, sse, 1, 5);
          float in[64] = { 1 }, out[512];
          A->process (r, in, 64, out);
          A->destroy (r);
          cap.stop();
          if (cap.text[0].size() || cap.text[1].size())
            fail ("lookup-construct", "resampler with precision for %u bits: %s%s", bits, cap.text[0].c_str(), cap.text[1].c_str());
          continue;
        }
      int v = s.chance (1, 4) ? s.draw (32) : levels[s.draw (6)];
      const char *name = A->precision_name (v);
      bool level = false;
      for (int l : levels)
        level |= l == v;
      if (!name || !*name)
        fail ("name", "precision_name (%d) is empty", v);
      if (!level && string (name) != "unknown precision enum value")
        fail ("name", "precision_name (%d) is '%s'", v, name);
      if (level && string (name) == "unknown precision enum value")
        fail ("name", "precision_name (%d) is '%s'", v, name);
      if (seen.count (v) && seen[v] != name)
        fail ("name", "precision_name (%d) changed from '%s' to '%s'", v, seen[v].c_str(), name);
      if (level)
        for (auto& o : seen)
          if (o.first != v && o.second == name)
            fail ("name", "precision_name (%d) and precision_name (%d) are both '%s'", v, o.first, name);
      seen[v] = name;
    }
  c.nontrivial (seen.size() >= 2);
}

/* --- C16 --- */

// are all lines of a text diagnostics? FILE:LINE:FUNCTION: PANDA_RESAMPLER_CHECK FAILED: EXPRESSION
static bool
only_diagnostics (const string& text)
{
  size_t pos = 0;
  while (pos < text.size())
    {
      size_t end = text.find ('\n', pos);
      if (end == string::npos)
        return false;
      string l = text.substr (pos, end - pos);
      pos = end + 1;
      size_t m = l.find (": PANDA_RESAMPLER_CHECK FAILED: ");
      if (m == string::npos || m + 32 >= l.size())
        return false;
      // before it: FILE:LINE:FUNCTION, where FUNCTION may contain colons and FILE anything
      bool ok = false;
      for (size_t a = l.find (':'); a != string::npos && a < m; a = l.find (':', a + 1))
        {
          size_t d = a + 1;
          while (d < m && isdigit (l[d]))
            d++;
          ok |= a > 0 && d > a + 1 && l[d] == ':' && d + 1 < m;
        }
      if (!ok)
        return false;
    }
  return true;
}

namespace {
struct Probe
{
  int      count = 0;
  vector<bool> values;
  bool operator()() { return values[count++]; }
};
}

PROPERTY (c16_macro, "a case is a sequence of up to 20 values which PANDA_RESAMPLER_CHECK() is applied to; it has to evaluate its argument once, return it, and to write one line with file, line, function and expression to stderr if and only if it is false; non-trivial: there are true and false values")
{
  Probe probe;
  unsigned n = 1 + s.draw (20), n_false = 0;
  for (unsigned i = 0; i < n; i++)
    probe.values.push_back (s.draw (2));
  vector<bool> got;
  vector<std::pair<string, string>> want; // start and end of each line
  const bool branch = s.draw (2);
  Capture cap;
  for (unsigned i = 0; i < n; i++)
    {
      c.note ("%d", int (probe.values[i]));
      if (branch)
        {
          if (PANDA_RESAMPLER_CHECK (probe() && true || false)) got.push_back (true); else got.push_back (false);
          if (!probe.values[i]) want.push_back ({ fmt ("%s:%d:", __FILE__, __LINE__ - 1), ": PANDA_RESAMPLER_CHECK FAILED: probe() && true || false" });
        }
      else
        {
          got.push_back (!!PANDA_RESAMPLER_CHECK (probe()));
          if (!probe.values[i]) want.push_back ({ fmt ("%s:%d:", __FILE__, __LINE__ - 1), ": PANDA_RESAMPLER_CHECK FAILED: probe()" });
        }
      n_false += !probe.values[i];
    }
  cap.stop();
  if (probe.count != int (n))
    fail ("macro", "the argument of PANDA_RESAMPLER_CHECK was evaluated %d times instead of %u times", probe.count, n);
  if (got != probe.values)
    fail ("macro", "PANDA_RESAMPLER_CHECK does not return the value of its argument");
  bool good = cap.text[0].empty() && only_diagnostics (cap.text[1]);
  size_t pos = 0;
  for (auto& w : want)
    {
      const string l = cap.text[1].substr (pos, cap.text[1].find ('\n', pos) - pos);
      good = good && l.size() > w.first.size() + w.second.size() && l.compare (0, w.first.size(), w.first) == 0 && l.compare (l.size() - w.second.size(), string::npos, w.second) == 0;
      pos = std::min (pos + l.size() + 1, cap.text[1].size());
    }
  if (!good || pos != cap.text[1].size())
    fail ("macro", "PANDA_RESAMPLER_CHECK printed '%s%s', expected %zu lines like '%s...%s'", cap.text[0].c_str(), cap.text[1].c_str(), want.size(), want.size() ? want[0].first.c_str() : "", want.size() ? want[0].second.c_str() : "");
  c.nontrivial (n_false > 0 && n_false < n);
}

PROPERTY (c16_construct, "a case is the construction of a resampler with any ratio (0..32, powers of two and random numbers), any precision value 0..31, filter, mode, SSE setting and number of arguments, and its destruction, with stdout and stderr captured; non-trivial: the configuration is not one of the supported ones")
{
  int mode = s.draw (2), filter = s.draw (2), sse = s.draw (2);
  unsigned ratio;
  switch (s.weighted ({ 4, 3, 2, 1 }))
    {
    case 0: ratio = 1u << s.draw (4); break;
    case 1: ratio = s.draw (33); break;
    case 2: ratio = 1u << s.draw (32); break;
    default: ratio = s.draw (0x100000000ull); break;
    }
  static const int levels[] = { 24, 20, 16, 12, 8, 1 };
  int prec = s.chance (1, 2) ? s.draw (32) : levels[s.draw (6)];
  int n_args = filter == 1 ? sse ? 3 + s.draw (3) : 4 + s.draw (2) : 5;
  c.note ("mode %d ratio %u precision %d sse %d filter %d, %d arguments", mode, ratio, prec, sse, filter, n_args);
  bool level = false;
  for (int l : levels)
    level |= l == prec;
  bool ok = ratio == 1 || ((ratio == 2 || ratio == 4 || ratio == 8) && level && (filter == 1 || prec != 1));
  Capture cap;
  void *r = A->create (mode, ratio, prec, sse, filter, n_args);
  A->destroy (r);
  cap.stop();
  int diag = count_diag (cap.text[1]);
  if (cap.text[0].size())
    fail ("stdout", "constructor wrote to stdout: %s", cap.text[0].c_str());
  if (ok && cap.text[1].size())
    fail ("false-diagnostic", "supported configuration: %s", cap.text[1].c_str());
  if (!ok && diag == 0)
    fail ("no-diagnostic", "unsupported configuration (mode %d ratio %u precision %d filter %d): no diagnostic, stderr: '%s'", mode, ratio, prec, filter, cap.text[1].c_str());
  if (!only_diagnostics (cap.text[1]))
    fail ("format", "unsupported configuration (mode %d ratio %u precision %d filter %d): stderr has other lines than diagnostics: '%s'", mode, ratio, prec, filter, cap.text[1].c_str());
  if (ok)
    c.label ("supported");
  else
    c.label (level ? "bad ratio or IIR with linear precision" : "bad precision");
  c.nontrivial (!ok);
}

PROPERTY (c16_silent, "a case is a valid history (construct, process, reset, queries, moves, destroy) with stdout and stderr captured; non-trivial: at least one sample was processed")
{
  CfgFilter f;
  f.ratio1 = true;
  Setup u = gen_setup (s, c, f, SIG_NONFINITE, true);
  vector<float> y;
  bool query = s.chance (1, 2), move = s.chance (1, 2);
  Capture cap;
  {
    RS r (u.cfg);
    if (query)
      {
        (void) r.delay();
        (void) r.order();
        (void) r.sse_enabled();
        (void) A->precision_name (u.cfg.prec);
        (void) A->find_precision (u.cfg.prec);
        (void) A->sse_available();
      }
    if (move)
      {
        void *q = A->move_new (r.p);
        A->destroy (r.p);
        r.p = q;
      }
    y = bench().run (r, u.x, u.p);
    r.reset();
  }
  cap.stop();
  if (cap.text[0].size() || cap.text[1].size())
    fail ("noise", "%s: stdout '%s' stderr '%s'", u.cfg.str().c_str(), cap.text[0].c_str(), cap.text[1].c_str());
  c.nontrivial (u.x.size() > 0);
}

PROPERTY (c16_odd, "a case is a history of a ratio 2 FIR downsampler with odd blocks inserted anywhere, compared with the history without them; each odd block has to be reported and must not touch the output; non-trivial: an odd block was inserted and there was output after it")
{
  auto all = all_configs();
  vector<Cfg> cfgs;
  for (auto& k : all)
    if (k.fir() && !k.up() && k.ratio == 2)
      cfgs.push_back (k);
  Cfg cfg = cfgs[s.stratum (cfgs.size())];
  c.note ("%s; ", cfg.str().c_str());
  size_t n = gen_total (s, c, cfg);
  vector<float> x = gen_signal (s, c, n);
  Plan p = gen_plan (s, c, cfg, n, true);
  RS r1 (cfg), r2 (cfg);
  vector<float> y1, y2;
  size_t pos = 0;
  bool nt = false, odd = false;
  unsigned total_odd = 0;
  for (auto& b : p.b)
    {
      if (b.reset_before)
        {
          r1.reset();
          r2.reset();
        }
      if (total_odd < 30 && s.chance (1, 3))
        {
          unsigned m = gen_len (s, cfg, 5000) + 1;
          c.note ("odd %u ", m);
          vector<float> in (m, 0.5f), out (m, 12345.0f);
          Capture cap;
          A->process (r1.p, in.data(), m, out.data());
          cap.stop();
          if (count_diag (cap.text[1]) == 0 || cap.text[0].size() || !only_diagnostics (cap.text[1]))
            fail ("odd-silent", "%s: block of %u samples was not reported; stderr '%s'", cfg.str().c_str(), m, cap.text[1].c_str());
          for (float v : out)
            if (v != 12345.0f)
              fail ("odd-output", "%s: block of %u samples was rejected, but the output was modified", cfg.str().c_str(), m);
          odd = true;
          total_odd++;
        }
      Capture cap;
      bench().process (r1, x.data() + pos, b.n, b.ia, b.oa, y1);
      bench().process (r2, x.data() + pos, b.n, b.ia, b.oa, y2);
      cap.stop();
      if (cap.text[0].size() || cap.text[1].size())
        fail ("noise", "%s: valid block of %u samples: %s%s", cfg.str().c_str(), b.n, cap.text[0].c_str(), cap.text[1].c_str());
      pos += b.n;
      nt |= odd && b.n > 0;
    }
  check_equal_bits ("odd-state", cfg.str() + ": with and without rejected blocks", y1, y2);
  c.nontrivial (nt);
}

/* --- C25 --- */

PROPERTY (c25_selftest, "a case is a seed of the C library random generator (any of its state sizes), a number of repetitions and verbose settings of test_filter_impl(), and a resampler in use meanwhile; non-trivial: all cases")
{
  unsigned seed = s.chance (1, 2) ? s.draw (0x100000000ull) : s.draw (1000);
  static const int state_sizes[] = { 128, 8, 32, 64, 256 };
  static char state[256];
  int size = state_sizes[s.draw (5)];
  initstate (seed, state, size);
  unsigned skip = s.draw (100), reps = 1 + s.draw (4);
  for (unsigned i = 0; i < skip; i++)
    (void) rand();
  c.note ("seed %u state %d skip %u reps %u ", seed, size, skip, reps);
  Cfg cfg = gen_cfg (s);
  RS r1 (cfg), r2 (cfg);
  const unsigned n = 64 * 8;
  vector<float> y1, y2;
  for (unsigned k = 0; k < reps; k++)
    {
      bool verbose = s.chance (1, 8);
      vector<float> x (n);
      for (unsigned i = 0; i < n; i++)
        x[i] = (int) ((i * 37 + k * 11) % 64) - 32;
      bench().process (r1, x.data(), n, 0, 0, y1);
      bench().process (r2, x.data(), n, 0, 0, y2);
      AllocStats a = alloc_stats(), b;
      Capture cap;
      bool ok;
      a = alloc_stats();
      ok = A->test_filter_impl (verbose);
      b = alloc_stats();
      cap.stop();
      if (!ok)
        fail ("selftest", "test_filter_impl() failed with random seed %u: %.300s", seed, cap.text[0].c_str());
      if (!verbose && (cap.text[0].size() || cap.text[1].size()))
        fail ("selftest-noise", "test_filter_impl (false) printed '%s%s'", cap.text[0].c_str(), cap.text[1].c_str());
      if (verbose && (cap.text[0].empty() || cap.text[1].size()))
        fail ("selftest-verbose", "test_filter_impl (true) printed %zu bytes, stderr '%s'", cap.text[0].size(), cap.text[1].c_str());
      // stdout may allocate its buffer when something is printed for the first time
      if (!verbose && (b.allocs - a.allocs != b.frees - a.frees || a.bytes != b.bytes))
        fail ("selftest-leak", "test_filter_impl() left %ld blocks", (b.allocs - a.allocs) - (b.frees - a.frees));
      // r1 runs with, r2 without a self-test in between: feed r2 before, r1 after
      bench().process (r1, x.data(), n, 0, 0, y1);
      bench().process (r2, x.data(), n, 0, 0, y2);
      Cfg other = cfg;
      RS fresh (other);
      vector<float> yf;
      bench().process (fresh, x.data(), n, 0, 0, yf);
      if (k == 0)
        {
          vector<float> first (y1.begin(), y1.begin() + yf.size());
          check_equal_bits ("selftest-disturbs", cfg.str() + ": resampler before and after the self-test", first, yf);
        }
    }
  // the whole stream again, without any self-test
  RS r3 (cfg);
  vector<float> y3;
  for (unsigned k = 0; k < reps; k++)
    {
      vector<float> x (n);
      for (unsigned i = 0; i < n; i++)
        x[i] = (int) ((i * 37 + k * 11) % 64) - 32;
      bench().process (r3, x.data(), n, 0, 0, y3);
      bench().process (r3, x.data(), n, 0, 0, y3);
    }
  check_equal_bits ("selftest-disturbs", cfg.str() + ": stream with and without self-tests", y1, y3);
  check_equal_bits ("selftest-disturbs", cfg.str() + ": two streams with self-tests", y1, y2);
  c.nontrivial();
}

PROPERTY (c25_faults, "a case is a fault of the SSE arithmetic (multiplication, addition or both; each or every 2nd to 8th operation; one or all lanes scaled by 1 +- 0.001..0.5, zeroed, negated, exchanged, shifted by +- 0.01..1, NaN or infinite) in a build where it can be switched on, and a random generator state; if the fault changes the output of an SSE FIR resampler by more than 1 percent of its peak, the self-test has to fail, and to succeed without the fault; non-trivial: the fault changes the output")
{
  static const char *const kinds[] = { "scaled", "zeroed", "negated", "exchanged", "shifted", "NaN", "infinite" };
  struct Fault
  {
    ~Fault() { sse_fault.op = 0; }
  } fault;
  Cfg cfg;
  static const int precs[] = { 8, 12, 16, 20, 24, 1 };
  cfg.mode = s.draw (2);
  cfg.prec = precs[s.draw (6)];
  int op = 1 + s.draw (3), lane = s.draw (5), kind = s.draw (7);
  float amount = kind == 4 ? pow (10, -2 * s.unit()) : pow (10, -3 + 2.7 * s.unit());
  if (s.draw (2))
    amount = -amount;
  const bool verbose = s.chance (1, 8);
  const unsigned reps = 1 + s.draw (3);
  srand (s.draw (1u << 20));
  static const unsigned everys[] = { 1, 4, 2, 3, 5, 8 };
  sse_fault.every = everys[s.draw (6)];
  sse_fault.phase = s.draw (sse_fault.every);
  c.note ("%s; %s%s%s, lane %d%s, %s", cfg.str().c_str(), op & 1 ? "mul" : "", op == 3 ? " " : "", op & 2 ? "add" : "", lane, lane == 4 ? " (all)" : "", kinds[kind]);
  if (kind == 0 || kind == 4)
    c.note (" %g", amount);
  if (sse_fault.every > 1)
    c.note (", operation %u of %u", sse_fault.phase, sse_fault.every);
  auto inject = [&] (bool on) { sse_fault.count[0] = sse_fault.count[1] = 0; sse_fault.op = on ? op : 0; };
  vector<float> x (512), good, bad;
  Rng rng (s.draw (1u << 20));
  for (auto& v : x)
    v = rng.sym();
  RS r1 (cfg), r2 (cfg);
  bench().process (r1, x.data(), x.size(), 0, 0, good);
  sse_fault.kind = kind;
  sse_fault.lane = lane;
  sse_fault.amount = amount;
  inject (true);
  bench().process (r2, x.data(), x.size(), 0, 0, bad);
  double diff = 0, peak = 0;
  for (size_t i = 0; i < good.size(); i++)
    {
      double d = fabs ((double) good[i] - bad[i]);
      if (!(d <= diff))
        diff = d == d ? d : INFINITY;
      peak = std::max (peak, fabs ((double) good[i]));
    }
  if (!(diff > 0.01 * peak))
    return;
  c.label (kinds[kind]);
  for (unsigned k = 0; k < reps; k++)
    {
      Capture cap;
      inject (true);
      bool detected = !A->test_filter_impl (verbose);
      inject (false);
      bool ok = A->test_filter_impl (false);
      cap.stop();
      if (!detected)
        fail ("selftest-deaf", "faulty SSE arithmetic (op %d lane %d %s %g) changes the output of the resampler by %g, but test_filter_impl() succeeds", op, lane, kinds[kind], amount, diff);
      if (!ok)
        fail ("selftest", "test_filter_impl() fails without a fault: %.300s", cap.text[0].c_str());
    }
  c.nontrivial();
}
