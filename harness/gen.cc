#include "gen.hh"
#include <immintrin.h>
#include <math.h>
#include <float.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>

using std::vector;
using std::string;
using namespace pbt;

const RsApi *A = rs_get_api();

Cfg
gen_cfg (Src& s, CfgFilter f)
{
  static vector<Cfg> cache[8];
  vector<Cfg>& v = cache[f.fir + 2 * f.iir + 4 * f.ratio1];
  if (v.empty())
    for (auto& c : all_configs (f.ratio1))
      if (c.fir() ? f.fir : f.iir)
        v.push_back (c);
  return v[s.stratum (v.size())];
}

static float
clampf (double v)
{
  return v;
}

// float with a drawn bit pattern, as far as the kind of signal allows; zero is the simplest
static float
direct_sample (uint32_t bits, unsigned flags)
{
  if (flags & SIG_MODERATE)
    return ldexp ((int32_t) bits, -31);
  if (((bits >> 23) & 255) == 255 && !(flags & SIG_NONFINITE))
    bits ^= 0x40000000;
  float v;
  memcpy (&v, &bits, 4);
  while (fabs (v) > 0x1p60f && fabs (v) <= FLT_MAX && !(flags & SIG_NONFINITE))
    v *= 0x1p-60f;
  return v;
}

vector<float>
gen_signal (Src& s, Ctx& c, size_t n, unsigned flags)
{
  static const char *names[] = { "zeros", "impulse", "const", "noise", "sine", "sparse", "extreme", "nyquist", "ramp", "smallint", "bursts", "levels", "denormal", "nonfinite", "direct" };
  vector<float> x (n, 0.0f);
  size_t pos = 0;
  c.note ("signal:");
  int n_segs = 0;
  while (pos < n)
    {
      // one segment usually covers everything
      size_t left = n - pos;
      bool whole = n_segs > 6 || !s.chance (1, 2);
      size_t len = whole ? left : 1 + s.draw (std::min<size_t> (left, 4000));
      unsigned kind = 1 + s.weighted ({ 3, 2, 6, 3, 3, 2, 1, 1, 1, 2, 2, (flags & SIG_MODERATE) ? 0u : 1u, (flags & SIG_NONFINITE) ? 4u : 0u, 2, 2 });
      if (kind == 14)
        kind = 0;
      else if (kind == 15)
        kind = 14;
      int ex = 0;
      if (kind != 0 && s.chance (1, 4))
        ex = (flags & SIG_MODERATE) ? s.range (-18, 18) : s.range (-60, 60);
      double amp = ldexp (1.0, ex);
      Rng r (mix64 (s.draw (0x100000000ull) + 1));
      c.note (" %s*%zu(2^%d)", names[kind], len, ex);
      c.label (string ("signal ") + names[kind]);
      float *p = &x[pos];
      switch (kind)
        {
        case 0:
          break;
        case 1:
          p[r.below (std::min<size_t> (len, 100))] = clampf (amp);
          break;
        case 2:
          {
            float v = amp * r.sym();
            std::fill (p, p + len, v);
          }
          break;
        case 3:
          for (size_t i = 0; i < len; i++)
            p[i] = amp * r.sym();
          break;
        case 4:
          {
            double w = M_PI * r.unit(), ph = r.unit() * 7;
            for (size_t i = 0; i < len; i++)
              p[i] = amp * sin (w * i + ph);
          }
          break;
        case 5:
          for (size_t i = r.below (8); i < len; i += 1 + r.below (150))
            p[i] = amp * (r.below (4) ? r.sym() : 1.0);
          break;
        case 6:
          for (size_t i = 0; i < len; i++)
            p[i] = (r.next() & 64) ? amp : -amp;
          break;
        case 7:
          for (size_t i = 0; i < len; i++)
            p[i] = (i & 1) ? amp : -amp;
          break;
        case 8:
          {
            double d = amp * r.sym() / (double) len;
            for (size_t i = 0; i < len; i++)
              p[i] = d * i;
          }
          break;
        case 9:
          for (size_t i = 0; i < len; i++)
            p[i] = amp * ((int) r.below (5) - 2);
          break;
        case 10: // noise interrupted by silence
          for (size_t i = 0; i < len;)
            {
              size_t on = 1 + r.below (200), off = r.below (400);
              for (size_t k = 0; k < on && i < len; k++, i++)
                p[i] = amp * r.sym();
              i += off;
            }
          break;
        case 11: // strongly varying levels
          for (size_t i = 0; i < len;)
            {
              size_t on = 1 + r.below (300);
              double a = ldexp (amp, (int) r.below (30) - 15);
              for (size_t k = 0; k < on && i < len; k++, i++)
                p[i] = a * r.sym();
            }
          break;
        case 12:
          for (size_t i = 0; i < len; i++)
            p[i] = ldexp (r.sym(), -125 - (int) r.below (24)) * ((r.next() & 256) ? 1 : -0.0);
          break;
        case 13:
          for (size_t i = 0; i < len; i++)
            {
              uint64_t k = r.below (40);
              p[i] = k == 0 ? NAN : k == 1 ? INFINITY : k == 2 ? -INFINITY : k == 3 ? 3e38f : r.sym();
            }
          break;
        case 14: // each sample is a choice of its own (within reach of shrinking and coverage guided search), repeated if the signal is longer
          {
            float v[24];
            const size_t nv = 1 + s.draw (std::min<size_t> (len, 24));
            for (size_t i = 0; i < nv; i++)
              v[i] = direct_sample (s.draw (0x100000000ull), flags);
            for (size_t i = 0; i < len; i++)
              p[i] = v[i % nv];
          }
          break;
        }
      pos += len;
      n_segs++;
    }
  c.note ("; ");
  return x;
}

unsigned
gen_len (Src& s, const Cfg& cfg, unsigned max_in)
{
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  const unsigned max_units = max_in / unit;
  if (!max_units)
    return 0;
  int64_t v = 0;
  switch (s.weighted ({ 4, 6, 3, 2, 1 }))
    {
    case 0:
      v = s.draw (10);
      break;
    case 1:
      {
        // around the filter lengths and the internal block sizes, in units of any stage
        static const unsigned fixed[] = { 4, 8, 12, 16, 24, 32, 64, 128, 256, 512, 1024, 2048, 4096 };
        unsigned k = s.draw (3 + 13), base;
        if (k < 3)
          {
            unsigned st = std::min (2u << k, cfg.ratio < 2 ? 2u : cfg.ratio);
            base = cfg.fir() ? fir_order (st, cfg.prec) - 1 : iir_order (st, cfg.prec > 1 ? cfg.prec : 8);
          }
        else
          base = fixed[k - 3];
        unsigned div = 1u << s.draw (4), mul = 1 + s.draw (2);
        v = int64_t (base) * mul / div + s.range (0, 10) - 3;
      }
      break;
    case 2:
      v = s.draw (300);
      break;
    case 3:
      v = s.draw (4300);
      break;
    case 4:
      v = s.draw (20000);
      break;
    }
  if (v < 0)
    v = 0;
  if (v > max_units)
    v = max_units;
  return v * unit;
}

size_t
gen_total (Src& s, Ctx& c, const Cfg& cfg)
{
  size_t unit = cfg.up() ? 1 : cfg.ratio, n;
  // upsampling by 8 produces 8 times the data: same amount of work for every configuration
  size_t scale = cfg.up() ? 8 / cfg.ratio : 8;
  unsigned k = s.weighted ({ 60, 30, 9, 1 });
  if (k == 0)
    n = s.draw (60 * scale);
  else if (k == 1)
    n = s.draw (700 * scale);
  else if (k == 2 || c.fuzzing())
    n = s.draw (2600 * scale);
  else
    n = s.draw (20000 * scale * c.effort);
  return (n + unit - 1) / unit * unit;
}

Plan
gen_plan (Src& s, Ctx& c, const Cfg& cfg, size_t total, bool resets)
{
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  Plan p;
  size_t pos = 0;
  // 0: one block, 1: random blocks, 2: constant block size, 3: tiny blocks
  unsigned style = s.weighted ({ 2, 8, 2, 2 });
  bool fixed_align = s.chance (1, 3);
  unsigned ia = s.draw (4), oa = s.draw (4);
  unsigned bs = style == 2 ? std::max (unit, gen_len (s, cfg, 5000 * unit)) : 0;
  size_t n_blocks = 0;
  while (pos < total)
    {
      unsigned n;
      size_t left = total - pos;
      if (style == 0 || n_blocks > 3000)
        n = left;
      else if (style == 2)
        n = std::min<size_t> (bs, left);
      else if (style == 3)
        n = std::min<size_t> (s.draw (9) * unit, left);
      else
        n = gen_len (s, cfg, left);
      if (!fixed_align)
        {
          ia = s.draw (4);
          oa = s.draw (4);
        }
      bool rs = resets && s.chance (1, 12);
      p.b.push_back ({ n, (unsigned char) ia, (unsigned char) oa, rs });
      pos += n;
      n_blocks++;
      if (n == 0 && n_blocks % 64 == 63) // no endless sequences of empty blocks when shrinking
        {
          n = left;
          p.b.push_back ({ n, 0, 0, false });
          pos += n;
        }
    }
  if (c.want_desc)
    c.note ("blocks: %s; ", plan_str (p).c_str());
  return p;
}
string
plan_str (const Plan& p)
{
  string s;
  size_t k = 0;
  for (auto& b : p.b)
    {
      s += fmt ("%s%s%u@%u,%u", k ? " " : "", b.reset_before ? "reset " : "", b.n, b.ia, b.oa);
      if (++k == 40 && p.b.size() > 45)
        {
          s += fmt (" .. (%zu blocks)", p.b.size());
          break;
        }
    }
  return s;
}

static const size_t MARGIN = 64; // floats on both sides

float *
Bench::get (Buf& b, size_t n)
{
  size_t need = n + 2 * MARGIN + 16;
  if (b.cap < need)
    {
      free (b.mem);
      b.cap = need * 2;
      b.mem = (float *) aligned_alloc (64, (b.cap * sizeof (float) + 63) / 64 * 64);
      if (!b.mem)
        abort();
    }
  return b.mem + MARGIN;
}
Bench::~Bench()
{
  free (in.mem);
  free (out.mem);
}
Bench&
bench()
{
  static thread_local Bench b;
  return b;
}
void
Bench::process (RS& r, const float *x, unsigned n, unsigned ia, unsigned oa, vector<float>& y)
{
  float *pi = get (in, n + ia) + ia;
  size_t no = r.n_out (n);
  float *po = get (out, no + oa) + oa;
  if (n)
    memcpy (pi, x, n * sizeof (float));
  size_t guard = check_surroundings ? 8 : 0;
  memset (po - guard, fill, (no + 2 * guard) * sizeof (float));
  if (mxcsr != 0x1f80)
    {
      unsigned old = _mm_getcsr();
      _mm_setcsr (mxcsr);
      r.api->process (r.p, pi, n, po);
      _mm_setcsr (old);
    }
  else
    r.api->process (r.p, pi, n, po);
  y.insert (y.end(), po, po + no);
  if (check_surroundings)
    {
      for (size_t i = 1; i <= guard; i++)
        {
          unsigned char *a = (unsigned char *) (po - i), *b = (unsigned char *) (po + no - 1 + i);
          for (int k = 0; k < 4; k++)
            if (a[k] != fill || b[k] != fill)
              fail ("overrun", "%s: block of %u samples: memory %s the output was modified (%zu samples away)", r.cfg.str().c_str(), n, a[k] != fill ? "before" : "after", i);
        }
    }
}
vector<float>
Bench::run (RS& r, const vector<float>& x, const Plan& p)
{
  vector<float> y;
  y.reserve (r.n_out (x.size()));
  size_t pos = 0;
  for (auto& b : p.b)
    {
      if (b.reset_before)
        r.reset();
      process (r, x.data() + pos, b.n, b.ia, b.oa, y);
      pos += b.n;
    }
  return y;
}
RefOut
model_plan (const Cfg& cfg, const vector<float>& x, const Plan& p)
{
  RefOut all;
  size_t pos = 0, start = 0;
  auto flush = [&] (size_t end) {
    if (end > start)
      {
        RefOut r = model_run (cfg, vector<float> (x.begin() + start, x.begin() + end));
        all.y.insert (all.y.end(), r.y.begin(), r.y.end());
        all.e.insert (all.e.end(), r.e.begin(), r.e.end());
      }
    start = end;
  };
  for (auto& b : p.b)
    {
      if (b.reset_before)
        flush (pos);
      pos += b.n;
    }
  flush (pos);
  return all;
}
void
check_against (const char *kind, const Cfg& cfg, const vector<float>& y, const RefOut& ref, double factor)
{
  if (y.size() != ref.y.size())
    fail (kind, "%s: %zu output samples, reference has %zu", cfg.str().c_str(), y.size(), ref.y.size());
  for (size_t i = 0; i < y.size(); i++)
    if (!(fabs (y[i] - ref.y[i]) <= ref.e[i] * factor))
      fail (kind, "%s: output[%zu] = %.9g, reference %.12g, difference %.3g exceeds rounding bound %.3g", cfg.str().c_str(), i, y[i], ref.y[i], y[i] - ref.y[i], ref.e[i] * factor);
}
void
check_equal_bits (const char *kind, const string& what, const vector<float>& a, const vector<float>& b)
{
  if (a.size() != b.size())
    fail (kind, "%s: %zu versus %zu samples", what.c_str(), a.size(), b.size());
  if (a.size() && memcmp (a.data(), b.data(), a.size() * sizeof (float)) != 0)
    for (size_t i = 0; i < a.size(); i++)
      if (memcmp (&a[i], &b[i], sizeof (float)) != 0)
        fail (kind, "%s: sample %zu differs: %.9g versus %.9g", what.c_str(), i, a[i], b[i]);
}
void
check_close (const char *kind, const string& what, const vector<float>& a, const vector<float>& b, const vector<double>& tol, double factor)
{
  if (a.size() != b.size() || a.size() != tol.size())
    fail (kind, "%s: %zu versus %zu samples (expected %zu)", what.c_str(), a.size(), b.size(), tol.size());
  for (size_t i = 0; i < a.size(); i++)
    if (!(fabs ((double) a[i] - b[i]) <= tol[i] * factor))
      fail (kind, "%s: sample %zu differs: %.9g versus %.9g (difference %.3g, allowed %.3g)", what.c_str(), i, a[i], b[i], (double) a[i] - b[i], tol[i] * factor);
}
void
label_common (Ctx& c, const Cfg& cfg, const Plan& p, size_t total)
{
  c.label (fmt ("%s %s x%u", cfg.fir() ? "FIR" : "IIR", cfg.up() ? "up" : "down", cfg.ratio));
  c.label (fmt ("precision %d", cfg.prec));
  size_t n = p.b.size();
  c.label (n == 0 ? "no block" : n == 1 ? "1 block" : n < 10 ? "2-9 blocks" : n < 100 ? "10-99 blocks" : ">= 100 blocks");
  c.label (total < 100 ? "stream < 100" : total < 1000 ? "stream 100-999" : total < 10000 ? "stream 1000-9999" : "stream >= 10000");
  bool rs = false, big = false;
  for (auto& b : p.b)
    {
      rs |= b.reset_before;
      big |= b.n > 2048;
    }
  if (rs)
    c.label ("with reset");
  if (big)
    c.label ("block > 2048");
}
bool
any_nonzero (const vector<float>& x)
{
  for (float v : x)
    if (v != 0)
      return true;
  return false;
}
