// long lives: very many calls, samples, resets and instances. A signal of a short period, cut periodically, makes every
// period of the output comparable with the reference, so that nothing has to be stored.
#include "util.hh"
#include <algorithm>
#ifdef __SSE__
#include <xmmintrin.h>
#endif
using std::vector;
using std::string;
using namespace pbt;

namespace {
enum { LIFE_RESETS = 1, LIFE_QUERIES = 2, LIFE_ALLOC = 4 };
enum { MARATHON_SAMPLES = 1, MARATHON_CALLS, MARATHON_CALLS32 };
struct PBlk { unsigned n; size_t in, out; };
}

static void
life (Src& s, Ctx& c, CfgFilter f, unsigned flags, int endless = 0)
{
  Cfg cfg = gen_cfg (s, f);
  const bool marathon = endless == MARATHON_SAMPLES, many_calls = endless == MARATHON_CALLS || endless == MARATHON_CALLS32;
  if (endless == MARATHON_CALLS32)
    {
      cfg.ratio = 2;
      cfg.filter = s.stratum (8) & 1; // the others are drawn
    }
  if (marathon) // fast ones
    {
      const unsigned k = s.stratum (8);
      cfg.filter = k & 1;
      cfg.mode = k >> 1 & 1;
      cfg.sse = k >> 2 & 1;
      cfg.ratio = 2;
      cfg.prec = cfg.fir() && s.draw (2) ? 1 : 8;
    }
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  c.note ("%s; ", cfg.str().c_str());
  const bool by_samples = marathon || (!many_calls && s.draw (2));
  vector<unsigned> lens;
  size_t period = 0;
  const unsigned pow2 = marathon && s.draw (4) ? 1 + s.draw (2) : s.draw (3); // powers of two are usual, and counters wrap around exactly
  const size_t n_blocks = pow2 == 1 || (many_calls && (flags & LIFE_RESETS)) ? 1 : 1 + s.draw (by_samples ? 3 : 12);
  for (size_t i = 0; i < n_blocks; i++)
    {
      unsigned n = by_samples ? 64 + s.draw (marathon ? 8000 : 4000) : many_calls ? 1 + s.draw (s.draw (4) ? 1 : 4) : s.draw (4);
      if (pow2 && n)
        n = 1u << (31 - __builtin_clz (n));
      if (i == 0 && !n)
        n = 1;
      lens.push_back (n * unit);
      period += n * unit;
    }
  // what is asked for: calls or samples
  // (without flush to zero, denormals may take a hundred times longer)
  const bool ftz = endless || s.draw (4);
  const uint64_t goal = marathon || endless == MARATHON_CALLS32 ? (uint64_t (1) << 32) + 200000 : many_calls ? (uint64_t (1) << 24) + 20000 : uint64_t (1) << (by_samples ? 20 : 15) << s.draw (ftz ? 7 : 4);
  vector<float> one = gen_signal (s, c, period);
  RS r (cfg);
  const size_t no = r.n_out (period);
  const uint64_t per_period = marathon ? std::min (period, no) : by_samples ? std::max (period, no) : lens.size();
  // after this many periods, there is nothing left of the start
  const size_t warm = flags & LIFE_RESETS ? 0 : 4096 * unit / period + 2;
  const uint64_t n_periods = goal / per_period + warm + 1;
  c.note ("; blocks of");
  for (auto n : lens)
    c.note (" %u", n);
  c.note (", %llu periods", (unsigned long long) n_periods);
  vector<float> rep;
  for (size_t i = 0; i <= warm; i++)
    rep.insert (rep.end(), one.begin(), one.end());
  RefOut ref = model_run (cfg, rep);
  vector<float> lo (no), hi (no);
  for (size_t i = 0; i < no; i++)
    {
      double y = ref.y[ref.y.size() - no + i], e = ref.e[ref.e.size() - no + i];
      lo[i] = nextafterf (y - e, -INFINITY);
      hi[i] = nextafterf (y + e, INFINITY);
    }
  vector<float> in (period + 8), out (no + 8);
  const unsigned ia = s.draw (4), oa = s.draw (4);
  std::copy (one.begin(), one.end(), in.begin() + ia);
  vector<PBlk> blks;
  size_t pi = ia, po = oa;
  for (auto n : lens)
    {
      blks.push_back ({ n, pi, po });
      pi += n;
      po += r.n_out (n);
    }
  const double delay0 = r.delay();
  const unsigned order0 = r.order();
  const bool sse0 = r.sse_enabled();
  const AllocStats a0 = alloc_stats();
  struct Env
  {
#ifdef __SSE__
    unsigned old = _mm_getcsr();
    Env (bool ftz) { if (ftz) _mm_setcsr (0x9fc0); }
    ~Env() { _mm_setcsr (old); }
#else
    Env (bool) {}
#endif
  } env (ftz);
  for (uint64_t k = 0; k < n_periods; k++)
    {
      if (flags & LIFE_RESETS)
        r.api->reset (r.p);
      for (auto& b : blks)
        r.api->process (r.p, in.data() + b.in, b.n, out.data() + b.out);
      if (flags & LIFE_QUERIES)
        if (r.api->delay (r.p) != delay0 || r.api->order (r.p) != order0 || r.api->sse_enabled (r.p) != sse0)
          fail ("life-introspection", "%s: delay(), order() or sse_enabled() is different in period %llu", cfg.str().c_str(), (unsigned long long) k);
      if (flags & LIFE_ALLOC)
        {
          AllocStats a1 = alloc_stats();
          if (a1.allocs != a0.allocs || a1.frees != a0.frees)
            fail ("life-allocation", "%s: memory was allocated or freed in period %llu", cfg.str().c_str(), (unsigned long long) k);
        }
      else if (k >= warm && !(flags & LIFE_QUERIES))
        {
          const float *y = out.data() + oa;
          unsigned bad = 0;
          for (size_t i = 0; i < no; i++)
            bad |= !(y[i] >= lo[i] && y[i] <= hi[i]);
          if (bad)
            for (size_t i = 0; i < no; i++)
              if (!(y[i] >= lo[i] && y[i] <= hi[i]))
                fail ("life", "%s: after %llu periods of %zu samples in %zu blocks: output[%zu] of the period is %.9g, expected %.9g .. %.9g as in all periods", cfg.str().c_str(),
                      (unsigned long long) k, period, blks.size(), i, y[i], lo[i], hi[i]);
        }
    }
  c.label (by_samples ? fmt ("about 2^%d samples", (int) log2 ((double) goal)) : fmt ("about 2^%d calls", (int) log2 ((double) goal)));
  c.nontrivial (any_nonzero (one));
}
static CfgFilter only_fir() { CfgFilter f; f.iir = false; return f; }
static CfgFilter only_iir() { CfgFilter f; f.fir = false; return f; }

#define LIFE_RULE "a case is a configuration (all enumerated evenly), a signal with a period of up to 12000 samples, cut periodically into 1..12 blocks, of which 2^15..2^21 calls or 2^20..2^26 samples are made on one instance; "
#define LIFE_NT "; non-trivial: the signal is not silent"

PROPERTY (c01_life, LIFE_RULE "every period of the output is compared with the reference model" LIFE_NT)
{
  life (s, c, only_fir(), 0);
}
PROPERTY (c02_life, LIFE_RULE "every period of the output is compared with the reference model" LIFE_NT)
{
  life (s, c, only_iir(), 0);
}
PROPERTY (c12_life, LIFE_RULE "every period of the output is compared with the reference model" LIFE_NT)
{
  life (s, c, CfgFilter(), 0);
}
PROPERTY (c12_marathon, "as in c12_life, with more than 2^32 input and output samples, for ratio 2 and 1 or 8 bits" LIFE_NT)
{
  life (s, c, CfgFilter(), 0, MARATHON_SAMPLES);
}
PROPERTY (c12_calls, "as in c12_life, with more than 2^24 calls" LIFE_NT)
{
  life (s, c, CfgFilter(), 0, MARATHON_CALLS);
}
PROPERTY (c12_calls32, "as in c12_life, with more than 2^32 calls, for ratio 2" LIFE_NT)
{
  life (s, c, CfgFilter(), 0, MARATHON_CALLS32);
}
PROPERTY (c05_calls, "as in c05_life, with more than 2^24 calls and periods of one block, so that there are as many resets" LIFE_NT)
{
  life (s, c, CfgFilter(), LIFE_RESETS, MARATHON_CALLS);
}
PROPERTY (c05_life, LIFE_RULE "every period starts with reset() and is compared with the reference model for a new stream" LIFE_NT)
{
  life (s, c, CfgFilter(), LIFE_RESETS);
}
PROPERTY (c17_life, LIFE_RULE "delay(), order() and sse_enabled() are compared after every period" LIFE_NT)
{
  life (s, c, CfgFilter(), LIFE_QUERIES | (s.draw (2) ? LIFE_RESETS : 0));
}
PROPERTY (c20_life, LIFE_RULE "allocations are counted after every period" LIFE_NT)
{
  life (s, c, CfgFilter(), LIFE_ALLOC | (s.draw (2) ? LIFE_RESETS : 0));
}

// ---- very many instances
PROPERTY (c10_generations, "a case is a drawn configuration whose output for a drawn stream is recorded, and 2^12..2^18 instances of 1..6 drawn configurations which are constructed one after the other, of which up to 3000 live at the same time in a random order of destruction; after that, and in between, the instance which was made first and new ones have to give the recorded output bit by bit; non-trivial: the stream is not silent")
{
  CfgFilter f;
  Cfg cfg = gen_cfg (s, f);
  c.note ("%s; ", cfg.str().c_str());
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  vector<float> x = gen_signal (s, c, (1 + s.draw (120)) * unit);
  vector<Cfg> cfgs;
  for (unsigned k = 1 + s.draw (6); k; k--)
    cfgs.push_back (gen_cfg (s, f));
  const uint64_t n = uint64_t (1) << (12 + s.draw (7));
  const size_t alive = s.draw (2) ? 1 + s.draw (8) : 1 + s.draw (3000);
  const bool use = s.draw (2);
  Rng rng (s.draw (1u << 24));
  c.note ("; %llu instances, %zu alive", (unsigned long long) n, alive);
  Bench& b = bench();
  RS first (cfg);
  vector<float> want, got;
  b.process (first, x.data(), x.size(), 0, 0, want);
  vector<std::unique_ptr<RS>> live (alive);
  vector<float> in (64, 0.25f), out (64 * 8);
  auto probe = [&] (uint64_t k, RS& r, const char *what) {
    got.clear();
    b.process (r, x.data(), x.size(), 0, 0, got);
    check_equal_bits ("generations", cfg.str() + fmt (": after %llu instances, %s and the first output", (unsigned long long) k, what), want, got);
  };
  for (uint64_t k = 0; k < n; k++)
    {
      auto& slot = live[rng.below (alive)];
      slot.reset();
      slot.reset (new RS (cfgs[rng.below (cfgs.size())]));
      if (use)
        slot->api->process (slot->p, in.data(), 8, out.data());
      if ((k & (k + 1)) == 0) // 2^j - 1
        {
          RS r (cfg);
          probe (k, r, "a new instance");
        }
    }
  first.reset();
  probe (n, first, "the first instance");
  RS r (cfg);
  probe (n, r, "a new instance");
  c.label (fmt ("2^%d instances", (int) log2 ((double) n)));
  c.nontrivial (any_nonzero (x));
}
