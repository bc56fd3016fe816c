// C01 C02 C03 C05 C06 C12 C13 C17 C18: relations between output streams
#include "util.hh"
#include <math.h>
#include <algorithm>

using std::vector;
using std::string;
using namespace pbt;

#define CASE_RULE "a case is a configuration (all enumerated evenly), a generated signal, and a generated sequence of process_block() calls; "

static CfgFilter only_fir() { CfgFilter f; f.iir = false; return f; }
static CfgFilter only_iir() { CfgFilter f; f.fir = false; return f; }
static CfgFilter both() { return CfgFilter(); }

/* --- C01, C02: reference model --- */

static void
against_model (Src& s, Ctx& c, CfgFilter f)
{
  Setup u = gen_setup (s, c, f, SIG_FINITE, true);
  FpEnv env (s, c);
  RS r (u.cfg);
  vector<float> y = bench().run (r, u.x, u.p);
  check_against ("model", u.cfg, y, model_plan (u.cfg, u.x, u.p), env.factor);
  c.nontrivial (any_nonzero (u.x) && y.size() >= 4);
}

PROPERTY (c01_model, CASE_RULE "non-trivial: the input has a non-zero sample and there are at least 4 output samples compared with the reference")
{
  against_model (s, c, only_fir());
}
PROPERTY (c02_model, CASE_RULE "non-trivial: the input has a non-zero sample and there are at least 4 output samples compared with the reference")
{
  against_model (s, c, only_iir());
}

// long streams cut into very many blocks
static Plan
long_plan (Src& s, const Cfg& cfg, size_t total)
{
  Plan p;
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  static const unsigned sizes[] = { 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 128 };
  unsigned base = sizes[s.draw (12)], var = s.draw (3);
  Rng r (s.draw (1u << 30));
  size_t pos = 0;
  while (pos < total)
    {
      unsigned n = base;
      if (var == 1)
        n = r.below (2 * base + 1);
      if (var == 2 && r.below (1000) == 0)
        n = r.below (5000);
      n = std::min<size_t> (n * unit, total - pos);
      unsigned a = r.next();
      p.b.push_back ({ n, (unsigned char) (a & 3), (unsigned char) (a >> 2 & 3), false });
      pos += n;
    }
  return p;
}
static void
long_model (Src& s, Ctx& c, CfgFilter f)
{
  Cfg cfg = gen_cfg (s, f);
  c.note ("%s; ", cfg.str().c_str());
  size_t n = 30000 + s.draw (c.effort > 1 ? 400000 : 120000);
  if (!cfg.up())
    n = n * (cfg.ratio > 4 ? 4 : cfg.ratio) / cfg.ratio * cfg.ratio;
  vector<float> x = gen_signal (s, c, n);
  Plan p = long_plan (s, cfg, n);
  c.note ("%zu blocks: %s", p.b.size(), plan_str (p).c_str());
  label_common (c, cfg, p, n);
  RS r (cfg);
  vector<float> y = bench().run (r, x, p);
  check_against ("long", cfg, y, model_run (cfg, x));
  c.nontrivial (any_nonzero (x) && p.b.size() > 200);
}
PROPERTY (c01_long, "a case is a configuration, a signal of at least 30000 samples and a partition into many blocks; non-trivial: non-zero input and more than 200 blocks")
{
  long_model (s, c, only_fir());
}
PROPERTY (c02_long, "a case is a configuration, a signal of at least 30000 samples and a partition into many blocks; non-trivial: non-zero input and more than 200 blocks")
{
  long_model (s, c, only_iir());
}

/* --- C03 --- */

PROPERTY (c03_partition, CASE_RULE "the stream is processed in two independently drawn partitions; non-trivial: the partitions differ, the input is not silent and there are at least 4 output samples")
{
  Setup u = gen_setup (s, c, both(), SIG_FINITE, false);
  Plan q = gen_plan (s, c, u.cfg, u.x.size(), false);
  FpEnv env (s, c);
  RS r1 (u.cfg), r2 (u.cfg);
  bench().fill = 0x7d;
  vector<float> y1 = bench().run (r1, u.x, u.p);
  vector<float> y2 = bench().run (r2, u.x, q);
  RefOut ref = model_run (u.cfg, u.x);
  check_close ("partition", u.cfg.str() + ": two partitions of the same stream", y1, y2, ref.e, 2 * env.factor);
  // the state left behind is the same, too
  vector<float> tail (u.cfg.ratio * 128), t1, t2, all = u.x;
  Rng rng (u.x.size() + 77);
  for (float& v : tail)
    v = rng.sym();
  all.insert (all.end(), tail.begin(), tail.end());
  bench().process (r1, tail.data(), tail.size(), 0, 0, t1);
  bench().process (r2, tail.data(), tail.size(), 0, 0, t2);
  ref = model_run (u.cfg, all);
  vector<double> tol (ref.e.end() - t1.size(), ref.e.end());
  check_close ("partition-state", u.cfg.str() + ": continuation after two partitions of the same stream", t1, t2, tol, 2 * env.factor);
  bool differ = u.p.b.size() != q.b.size();
  for (size_t i = 0; !differ && i < q.b.size(); i++)
    differ = q.b[i].n != u.p.b[i].n;
  c.nontrivial (differ && any_nonzero (u.x) && y1.size() >= 4);
}

PROPERTY (c03_empty, CASE_RULE "empty blocks are inserted into one of two runs with otherwise equal blocks and alignments, which have to agree bit for bit; non-trivial: an empty block was inserted between or after non-silent input")
{
  Setup u = gen_setup (s, c, both(), SIG_FINITE, false);
  Plan q;
  bool nt = false;
  for (size_t i = 0; i <= u.p.b.size(); i++)
    {
      if (i < 200 && s.chance (1, 3))
        {
          unsigned k = 1 + s.draw (3);
          nt |= i > 0;
          while (k--)
            q.b.push_back ({ 0, (unsigned char) s.draw (4), (unsigned char) s.draw (4), false });
        }
      if (i < u.p.b.size())
        q.b.push_back (u.p.b[i]);
    }
  c.note ("with empty blocks: %s", plan_str (q).c_str());
  FpEnv env (s, c);
  RS r1 (u.cfg), r2 (u.cfg);
  vector<float> y1 = bench().run (r1, u.x, u.p);
  vector<float> y2 = bench().run (r2, u.x, q);
  // a different result of rounding after an empty block would be fine, only the rounding bound is promised
  RefOut ref = model_run (u.cfg, u.x);
  check_close ("empty-block", u.cfg.str() + ": with and without empty blocks", y1, y2, ref.e, 2 * env.factor);
  c.nontrivial (nt && any_nonzero (u.x) && y1.size() > 0);
}

PROPERTY (c03_big, "one block of more than 2^16 samples (around powers of two and random) compared with the reference and with a second partition; non-trivial: non-zero input")
{
  Cfg cfg = gen_cfg (s);
  c.note ("%s; ", cfg.str().c_str());
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  size_t n;
  unsigned kind = s.draw (3);
  if (kind == 0)
    n = (size_t (1) << (15 + s.draw (c.effort > 1 ? 6 : 4))) + s.range (-6, 6);
  else if (kind == 1)
    n = ((size_t (1) << (15 + s.draw (4))) + s.range (-6, 6)) / unit;
  else
    n = 60000 + s.draw (150000);
  if (n * cfg.ratio > 3000000)
    n = 3000000 / cfg.ratio;
  n *= unit;
  if (!cfg.up() && n > 1500000)
    n = 1500000 / unit * unit;
  vector<float> x = gen_signal (s, c, n);
  Plan p;
  p.b.push_back ({ (unsigned) n, (unsigned char) s.draw (4), (unsigned char) s.draw (4), false });
  Plan q = gen_plan (s, c, cfg, n, false);
  label_common (c, cfg, p, n);
  RS r1 (cfg), r2 (cfg);
  vector<float> y1 = bench().run (r1, x, p), y2 = bench().run (r2, x, q);
  RefOut ref = model_run (cfg, x);
  check_against ("big-block", cfg, y1, ref);
  check_close ("big-block-partition", cfg.str() + ": one big block and a partition of it", y1, y2, ref.e, 2);
  c.nontrivial (any_nonzero (x));
}

/* --- C05 --- */

PROPERTY (c05_reset, CASE_RULE "an arbitrary history (with NaN, infinity and resets) is run, then reset() and a second history, compared bit for bit with a new object; non-trivial: the first history had non-zero samples and the second one has output")
{
  CfgFilter f;
  f.ratio1 = true;
  Cfg cfg = gen_cfg (s, f);
  c.note ("%s; before: ", cfg.str().c_str());
  size_t n1 = gen_total (s, c, cfg);
  vector<float> x1 = gen_signal (s, c, n1, SIG_NONFINITE);
  Plan p1 = gen_plan (s, c, cfg, n1, true);
  unsigned resets = 1 + s.weighted ({ 8, 1, 1 });
  if (s.chance (1, 200)) // counters wrap around
    resets = s.draw (20) ? (s.draw (2) ? 256 : 128) * (1 + s.draw (3)) + s.draw (3) - 1 : 65535 + s.draw (3);
  c.note ("reset() * %u; after: ", resets);
  size_t n2 = gen_total (s, c, cfg);
  vector<float> x2 = gen_signal (s, c, n2, SIG_NONFINITE);
  Plan p2 = gen_plan (s, c, cfg, n2, s.chance (1, 4));
  bool new_object_resets = s.chance (1, 3), move_between = s.chance (1, 6), empty_after = s.chance (1, 6);
  label_common (c, cfg, p2, n2);

  FpEnv env (s, c);
  RS used (cfg), fresh (cfg);
  bench().run (used, x1, p1);
  for (unsigned i = 0; i < resets; i++)
    used.reset();
  if (move_between)
    {
      c.label ("moved after reset");
      void *q = used.api->move_new (used.p);
      used.api->destroy (used.p);
      used.p = q;
    }
  if (empty_after)
    {
      vector<float> dummy;
      bench().process (used, nullptr, 0, 0, 0, dummy);
      used.reset();
    }
  if (new_object_resets)
    fresh.reset();
  vector<float> y1 = bench().run (used, x2, p2), y2 = bench().run (fresh, x2, p2);
  check_equal_bits ("reset", cfg.str() + ": after reset() and new object", y1, y2);
  if (used.delay() != fresh.delay() || used.order() != fresh.order() || used.sse_enabled() != fresh.sse_enabled())
    fail ("reset-introspection", "%s: delay/order/sse_enabled changed", cfg.str().c_str());
  c.nontrivial (any_nonzero (x1) && y1.size() >= 4);
}

// reset() at every point of a short history
PROPERTY (c05_every_point, "for one configuration, signal and block size, reset() after k blocks for every k in turn, always compared bit for bit with a new object; non-trivial: at least 4 points with non-zero input before them")
{
  Cfg cfg = gen_cfg (s);
  c.note ("%s; ", cfg.str().c_str());
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  const unsigned n_blocks = 4 + s.draw (12);
  vector<unsigned> lens;
  size_t total = 0;
  for (unsigned i = 0; i < n_blocks; i++)
    {
      lens.push_back ((1 + s.draw (40)) * unit);
      total += lens.back();
    }
  vector<float> x = gen_signal (s, c, total, SIG_NONFINITE);
  vector<float> probe (200 * unit);
  Rng rng (s.draw (1u << 30));
  for (float& v : probe)
    v = rng.sym();
  FpEnv env (s, c);
  vector<float> want;
  {
    RS fresh (cfg);
    bench().process (fresh, probe.data(), probe.size(), 0, 0, want);
  }
  RS r (cfg); // always the same object
  for (unsigned k = 0; k <= n_blocks; k++)
    {
      vector<float> y;
      size_t pos = 0;
      for (unsigned i = 0; i < k; i++)
        {
          bench().process (r, x.data() + pos, lens[i], i & 3, 0, y);
          pos += lens[i];
        }
      r.reset();
      vector<float> got;
      bench().process (r, probe.data(), probe.size(), 0, 0, got);
      check_equal_bits ("reset-point", fmt ("%s: reset() after %u blocks (%zu samples) and new object", cfg.str().c_str(), k, pos), got, want);
      r.reset();
    }
  c.nontrivial (any_nonzero (x));
}

/* --- C06 --- */

PROPERTY (c06_sse_scalar, CASE_RULE "processed by an SSE and a scalar instance, with equal or independent partitions; non-trivial: non-zero input and at least 16 output samples")
{
  Setup u = gen_setup (s, c, both(), SIG_FINITE, true);
  Plan q = u.p;
  if (s.chance (1, 2))
    {
      bool has_resets = false;
      for (auto& b : u.p.b)
        has_resets |= b.reset_before;
      if (!has_resets)
        q = gen_plan (s, c, u.cfg, u.x.size(), false);
    }
  FpEnv env (s, c);
  Cfg c1 = u.cfg, c2 = u.cfg;
  c1.sse = 1;
  c2.sse = 0;
  RS r1 (c1), r2 (c2);
  vector<float> y1 = bench().run (r1, u.x, u.p), y2 = bench().run (r2, u.x, q);
  RefOut ref = model_plan (u.cfg, u.x, u.p);
  check_close ("sse-scalar", u.cfg.str() + ": SSE and scalar", y1, y2, ref.e, 2 * env.factor);
  if (r1.delay() != r2.delay() || r1.order() != r2.order())
    fail ("sse-introspection", "%s: delay %.17g and %.17g, order %u and %u", u.cfg.str().c_str(), r1.delay(), r2.delay(), r1.order(), r2.order());
#ifdef NO_SIMD_BUILD
  const bool have = false;
#else
  const bool have = true;
#endif
  if (A->sse_available() != have)
    fail ("sse-available", "sse_available() is %d", A->sse_available());
  if (r1.sse_enabled() != have || r2.sse_enabled() != false)
    fail ("sse-enabled", "%s: sse_enabled() is %d with and %d without request", u.cfg.str().c_str(), r1.sse_enabled(), r2.sse_enabled());
  // the default is to use SSE
  int n_args = u.cfg.fir() ? 3 + s.draw (3) : 5;
  void *d = A->create (u.cfg.mode, u.cfg.ratio, u.cfg.prec, 1, u.cfg.filter, n_args);
  bool e = A->sse_enabled (d);
  A->destroy (d);
  if (e != have)
    fail ("sse-default", "%s: sse_enabled() is %d with %d constructor arguments", u.cfg.str().c_str(), e, n_args);
  c.nontrivial (any_nonzero (u.x) && y1.size() >= 16);
}

/* --- C12 --- */

PROPERTY (c12_scale, CASE_RULE "processed again after scaling by +-2^k; non-trivial: non-zero input, at least 16 output samples and a factor other than 1")
{
  Setup u = gen_setup (s, c, both(), SIG_MODERATE, true);
  int k = s.range (-40, 40);
  bool neg = s.chance (1, 2);
  double factor = ldexp (neg ? -1 : 1, k);
  c.note ("factor %s2^%d", neg ? "-" : "", k);
  vector<float> x2 = u.x;
  for (float& v : x2)
    v *= factor;
  RS r1 (u.cfg), r2 (u.cfg);
  vector<float> y1 = bench().run (r1, u.x, u.p), y2 = bench().run (r2, x2, u.p);
  double tiny = 1e-30 * std::max (1.0, ldexp (1.0, k));
  if (y1.size() != y2.size())
    fail ("scale", "sizes differ");
  for (size_t i = 0; i < y1.size(); i++)
    if (y1[i] * factor != y2[i] && !(fabs (y1[i] * factor - y2[i]) <= tiny))
      fail ("scale", "%s: input times %g: output[%zu] is %.9g, expected exactly %.9g", u.cfg.str().c_str(), factor, i, y2[i], y1[i] * factor);
  c.nontrivial (any_nonzero (u.x) && y1.size() >= 16 && factor != 1);
}

PROPERTY (c12_sum, CASE_RULE "the responses to two signals and to their exact sum, with independent partitions; non-trivial: both signals non-zero and at least 16 output samples")
{
  Setup u = gen_setup (s, c, both(), SIG_MODERATE, false);
  vector<float> b = gen_signal (s, c, u.x.size(), SIG_MODERATE), sum (b.size());
  double m = std::max (peak (u.x), peak (b));
  double step = m > 0 ? ldexp (1.0, ilogb (m) - 21) : 1; // multiples of step: the sum is exact
  bool same_plan = s.chance (1, 2);
  for (size_t i = 0; i < b.size(); i++)
    {
      u.x[i] = rint (u.x[i] / step) * step;
      b[i] = rint (b[i] / step) * step;
      sum[i] = u.x[i] + b[i];
    }
  Plan q1 = same_plan ? u.p : gen_plan (s, c, u.cfg, b.size(), false);
  Plan q2 = same_plan ? u.p : gen_plan (s, c, u.cfg, b.size(), false);
  FpEnv env (s, c);
  RS ra (u.cfg), rb (u.cfg), rs (u.cfg);
  vector<float> ya = bench().run (ra, u.x, u.p), yb = bench().run (rb, b, q1), ys = bench().run (rs, sum, q2);
  RefOut ea = model_run (u.cfg, u.x), eb = model_run (u.cfg, b), es = model_run (u.cfg, sum);
  for (size_t i = 0; i < ys.size(); i++)
    {
      double d = (double) ya[i] + yb[i] - ys[i], tol = (ea.e[i] + eb.e[i] + es.e[i]) * env.factor;
      if (!(fabs (d) <= tol))
        fail ("sum", "%s: output[%zu]: %.9g + %.9g versus %.9g for the sum, difference %.3g, allowed %.3g", u.cfg.str().c_str(), i, ya[i], yb[i], ys[i], d, tol);
    }
  c.nontrivial (any_nonzero (u.x) && any_nonzero (b) && ys.size() >= 16);
}

PROPERTY (c12_shift, CASE_RULE "the stream is processed again after k samples of silence, with an independent partition; non-trivial: non-zero input, at least 16 output samples and k > 0")
{
  Setup u = gen_setup (s, c, both(), SIG_FINITE, false);
  const unsigned unit = u.cfg.up() ? 1 : u.cfg.ratio;
  size_t k = s.chance (1, 3) ? s.draw (3000) : s.draw (80);
  c.note ("delayed by %zu", k * unit);
  vector<float> x2 (k * unit, 0.0f);
  x2.insert (x2.end(), u.x.begin(), u.x.end());
  Plan q = gen_plan (s, c, u.cfg, x2.size(), false);
  FpEnv env (s, c);
  RS r1 (u.cfg), r2 (u.cfg);
  vector<float> y1 = bench().run (r1, u.x, u.p), y2 = bench().run (r2, x2, q);
  size_t ko = r1.n_out (k * unit);
  for (size_t i = 0; i < ko; i++)
    if (y2[i] != 0)
      fail ("shift-silence", "%s: output[%zu] = %g although the input was silent so far", u.cfg.str().c_str(), i, y2[i]);
  y2.erase (y2.begin(), y2.begin() + ko);
  RefOut ref = model_run (u.cfg, u.x);
  check_close ("shift", u.cfg.str() + ": signal and delayed signal", y1, y2, ref.e, 2 * env.factor);
  c.nontrivial (k > 0 && any_nonzero (u.x) && y1.size() >= 16);
}

/* --- C13 --- */

PROPERTY (c13_bounded, CASE_RULE "non-trivial: non-zero input and at least 16 output samples")
{
  Setup u = gen_setup (s, c, both(), SIG_FINITE, true);
  // the worst case signal for a gain: extreme values with the signs of the impulse response
  if (s.chance (1, 4) && u.x.size())
    {
      Cfg k = u.cfg;
      const unsigned unit = k.up() ? 1 : k.ratio;
      vector<float> imp (300 * unit, 0.0f);
      unsigned phase = s.draw (unit);
      imp[phase] = 1;
      RS r (k);
      vector<float> h;
      bench().process (r, imp.data(), imp.size(), 0, 0, h);
      size_t target = s.draw (150);
      unsigned up_phase = s.draw (k.ratio);
      for (size_t i = 0; i < u.x.size(); i++)
        {
          int64_t hi = k.up() ? (int64_t (target) - int64_t (i % 150)) * k.ratio + up_phase : int64_t (target) - int64_t (i % (150 * unit)) / unit;
          u.x[i] = hi >= 0 && hi < (int64_t) h.size() && h[hi] < 0 ? -1 : 1;
        }
      c.label ("sign-matched signal");
    }
  FpEnv env (s, c);
  RS r (u.cfg);
  vector<float> y = bench().run (r, u.x, u.p);
  double limit = peak (u.x) * model_gain_bound (u.cfg) * (1 + 1e-4) + 1e-37;
  for (size_t i = 0; i < y.size(); i++)
    if (!(fabs (y[i]) <= limit))
      fail ("unbounded", "%s: output[%zu] = %g for an input with peak %g (limit %g)", u.cfg.str().c_str(), i, y[i], peak (u.x), limit);
  c.nontrivial (any_nonzero (u.x) && y.size() >= 16);
}

PROPERTY (c13_fir_memory, CASE_RULE "any history (NaN and infinity included) followed by silence of the length of the filters and arbitrary further silence; non-trivial: the history was not silent")
{
  Cfg cfg = gen_cfg (s, only_fir());
  c.note ("%s; ", cfg.str().c_str());
  size_t n = gen_total (s, c, cfg);
  vector<float> x = gen_signal (s, c, n, SIG_NONFINITE);
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  const size_t quiet = model_memory (cfg) + 32; // filter length and a few samples (vector registers)
  const size_t rest = 16 + s.draw (200);
  x.resize (n + (quiet + rest) * unit, 0.0f);
  Plan p = gen_plan (s, c, cfg, x.size(), false);
  label_common (c, cfg, p, x.size());
  FpEnv env (s, c);
  RS r (cfg);
  vector<float> y = bench().run (r, x, p);
  for (size_t i = r.n_out (n + quiet * unit); i < y.size(); i++)
    if (!(y[i] == 0))
      fail ("fir-memory", "%s: output[%zu] = %g, %zu input samples after the start of silence", cfg.str().c_str(), i, y[i], (cfg.up() ? i / cfg.ratio : i * cfg.ratio) - n);
  bool nz = false;
  for (float v : x)
    nz |= !(v == 0);
  c.nontrivial (nz);
}

PROPERTY (c13_iir_decay, CASE_RULE "any finite history followed by 3000 base rate samples of silence; non-trivial: the history was not silent")
{
  Cfg cfg = gen_cfg (s, only_iir());
  c.note ("%s; ", cfg.str().c_str());
  size_t n = gen_total (s, c, cfg);
  vector<float> x = gen_signal (s, c, n);
  double pk = peak (x);
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  const size_t quiet = 3000;
  x.resize (n + (quiet + 300) * unit, 0.0f);
  Plan p = gen_plan (s, c, cfg, x.size(), false);
  label_common (c, cfg, p, x.size());
  FpEnv env (s, c);
  RS r (cfg);
  vector<float> y = bench().run (r, x, p);
  double limit = std::max (1e-30 * pk, 1e-38);
  for (size_t i = r.n_out (n + quiet * unit); i < y.size(); i++)
    if (!(fabs (y[i]) <= limit))
      fail ("iir-decay", "%s: output[%zu] = %g more than %zu base rate samples after the end of a signal with peak %g", cfg.str().c_str(), i, y[i], quiet, pk);
  c.nontrivial (pk > 0);
}

/* --- C17 --- */

static const unsigned prec_order_fir[6] = { 52, 42, 32, 24, 16, 2 }, prec_order_iir[5] = { 9, 8, 6, 5, 3 };
static const int precs[6] = { 24, 20, 16, 12, 8, 1 };

PROPERTY (c17_introspection, CASE_RULE "order(), delay() and sse_enabled() are called between blocks, resets and moves of one of two otherwise equal runs; non-trivial: at least 4 output samples")
{
  CfgFilter f;
  f.ratio1 = true;
  Setup u = gen_setup (s, c, f, SIG_NONFINITE, true);
  const Cfg& cfg = u.cfg;
  RS r1 (cfg), r2 (cfg);
  // defaults of the constructor
  if (cfg.sse && cfg.fir())
    {
      int n_args = 3 + s.draw (2);
      r1.api->destroy (r1.p);
      r1.p = r1.api->create (cfg.mode, cfg.ratio, cfg.prec, 1, 0, n_args);
      c.label ("default arguments");
    }
  else if (cfg.fir() && s.chance (1, 2))
    {
      r1.api->destroy (r1.p);
      r1.p = r1.api->create (cfg.mode, cfg.ratio, cfg.prec, 0, 0, 4);
      c.label ("default filter");
    }
  unsigned want = 0;
  if (cfg.ratio > 1)
    for (int i = 0; i < 6; i++)
      if (precs[i] == cfg.prec)
        want = cfg.fir() ? prec_order_fir[i] : prec_order_iir[i];
  const double delay = r1.delay();
  const bool sse = r1.sse_enabled();
  if (r2.delay() != delay || r2.sse_enabled() != sse || r2.order() != want)
    fail ("introspection", "%s: delay, sse_enabled or order of equal objects differ", cfg.str().c_str());
  Cfg twin_cfg = cfg;
  twin_cfg.sse = !cfg.sse;
  RS twin (twin_cfg);
  if (!(fabs (twin.delay() - delay) <= 1e-12) || twin.order() != want)
    fail ("introspection", "%s: delay() %.17g order() %u, with the other SSE setting %.17g and %u", cfg.str().c_str(), delay, want, twin.delay(), twin.order());
  if (cfg.ratio == 1 && (delay != 0 || sse))
    fail ("introspection", "%s: delay() %g sse_enabled() %d", cfg.str().c_str(), delay, sse);
  if (!(delay >= 0) || std::isinf (delay))
    fail ("introspection", "%s: delay() %g", cfg.str().c_str(), delay);
  auto query = [&] (const char *when) {
    unsigned o = r1.order();
    double d = r1.delay();
    bool e = r1.sse_enabled();
    if (o != want || d != delay || e != sse)
      fail ("introspection", "%s: %s: order() %u expected %u, delay() %.17g expected %.17g, sse_enabled() %d expected %d", cfg.str().c_str(), when, o, want, d, delay, e, sse);
  };
  FpEnv env (s, c);
  vector<float> y1, y2;
  size_t pos = 0, k = 0;
  query ("after construction");
  for (auto& b : u.p.b)
    {
      if (b.reset_before)
        {
          r1.reset();
          r2.reset();
          query ("after reset");
        }
      bench().process (r1, u.x.data() + pos, b.n, b.ia, b.oa, y1);
      query ("after process_block");
      bench().process (r2, u.x.data() + pos, b.n, b.ia, b.oa, y2);
      pos += b.n;
      if (k++ < 20 && s.chance (1, 8))
        {
          void *q = r1.api->move_new (r1.p);
          r1.api->destroy (r1.p);
          r1.p = q;
          query ("after move");
          c.label ("with move");
        }
    }
  check_equal_bits ("introspection-output", cfg.str() + ": with and without queries", y1, y2);
  c.nontrivial (y1.size() >= 4);
}

/* --- C18 --- */

PROPERTY (c18_identity, "a ratio 1 configuration and a history of blocks of arbitrary bit patterns (NaNs with payloads, denormals, signed zeros), with resets and moves; non-trivial: at least one sample")
{
  Cfg cfg;
  cfg.ratio = 1;
  cfg.mode = s.draw (2);
  cfg.sse = s.draw (2);
  cfg.filter = s.draw (2);
  cfg.prec = precs[s.draw (6)];
  c.note ("%s; ", cfg.str().c_str());
  FpEnv env (s, c);
  RS r (cfg);
  unsigned n_blocks = 1 + s.draw (12);
  bool nt = false;
  for (unsigned k = 0; k < n_blocks; k++)
    {
      unsigned n = s.chance (1, 60) ? s.draw (100000) : gen_len (s, cfg, 5000);
      unsigned ia = s.draw (4), oa = s.draw (4);
      Rng rng (s.draw (1u << 30));
      unsigned kind = s.draw (4);
      vector<float> x (n);
      for (float& v : x)
        {
          uint32_t b = rng.next() >> 32;
          if (kind == 1)
            b &= 0x807fffff;                      // zeros and denormals
          else if (kind == 2)
            b |= 0x7f800000;                      // NaN and infinity
          else if (kind == 3 && (b & 0x300) == 0)
            b &= 0x80000000;                      // many signed zeros
          memcpy (&v, &b, 4);
        }
      if (s.chance (1, 4))
        r.reset();
      if (s.chance (1, 12))
        {
          void *q = r.api->move_new (r.p);
          r.api->destroy (r.p);
          r.p = q;
        }
      vector<float> y;
      bench().process (r, x.data(), n, ia, oa, y);
      c.note ("%u@%u,%u ", n, ia, oa);
      check_equal_bits ("identity", cfg.str() + ": input and output", x, y);
      if (r.delay() != 0 || r.order() != 0 || r.sse_enabled())
        fail ("identity-introspection", "%s: delay() %g order() %u sse_enabled() %d", cfg.str().c_str(), r.delay(), r.order(), r.sse_enabled());
      nt |= n > 0;
    }
  c.label (n_blocks == 1 ? "1 block" : "several blocks");
  c.nontrivial (nt);
}
