#include "model.hh"
#include "ref_tables.h"
#include <math.h>
#include <stdlib.h>
#include <stdio.h>
#include <map>
#include <algorithm>

using std::vector;

static const double U = 0x1p-24;       // unit roundoff of float
static const double TINY = 1e-34;      // absolute allowance for denormals

std::string
Cfg::str() const
{
  char b[100];
  snprintf (b, sizeof (b), "%s %s x%u %dbit %s", filter ? "FIR" : "IIR", mode ? "DOWN" : "UP", ratio, prec, sse ? "sse" : "scalar");
  return b;
}
vector<Cfg>
all_configs (bool with_ratio1)
{
  vector<Cfg> r;
  for (unsigned ratio : { 2, 4, 8, 1 })
    if (ratio > 1 || with_ratio1)
      for (int filter : { 1, 0 })
        for (int prec : { 24, 20, 16, 12, 8, 1 })
          if (prec > 1 || filter == 1 || ratio == 1)
            for (int mode : { 0, 1 })
              for (int sse : { 1, 0 })
                {
                  Cfg c;
                  c.mode = mode; c.ratio = ratio; c.prec = prec; c.sse = sse; c.filter = filter;
                  r.push_back (c);
                }
  return r;
}
static const RefFir&
find_fir (int stage, int prec)
{
  for (auto& t : ref_fir)
    if (t.stage == stage && t.bits == prec)
      return t;
  fprintf (stderr, "no reference FIR %d %d\n", stage, prec);
  exit (2);
}
static const RefIir&
find_iir (int stage, int prec)
{
  for (auto& t : ref_iir)
    if (t.stage == stage && t.bits == prec)
      return t;
  fprintf (stderr, "no reference IIR %d %d\n", stage, prec);
  exit (2);
}
unsigned fir_order (int stage, int prec) { return find_fir (stage, prec).n; }
unsigned iir_order (int stage, int prec) { return find_iir (stage, prec).n; }
double iir_group_delay (int stage, int prec) { return find_iir (stage, prec).group_delay; }

static double
stage_delay (const Cfg& cfg, int stage)
{
  if (cfg.fir())
    {
      double o = fir_order (stage, cfg.prec);
      return cfg.up() ? o - 1 : o / 2 - 0.5;
    }
  double g = iir_group_delay (stage, cfg.prec);
  return cfg.up() ? g : (g - 1) / 2;
}
double
model_delay (const Cfg& cfg)
{
  double d = 0;
  for (unsigned s = 2; s <= cfg.ratio; s *= 2)
    {
      if (cfg.up())
        d = 2 * d + stage_delay (cfg, s);
      else
        d += stage_delay (cfg, s) / (s / 2);
    }
  return d;
}
unsigned
model_order (const Cfg& cfg)
{
  if (cfg.ratio == 1)
    return 0;
  return cfg.fir() ? fir_order (2, cfg.prec) : iir_order (2, cfg.prec);
}

static void
fir_stage (bool up, int n, const double *t_c, const vector<double>& x, const vector<double>& ex, vector<double>& y, vector<double>& ey)
{
  const size_t N = x.size();
  const double a = (n + 6) * U * 1.01;
  // padded input: n-1 samples of silence before the start
  if (up)
    {
      vector<double> px (n - 1 + N), pb (n - 1 + N);
      for (size_t i = 0; i < N; i++)
        {
          px[n - 1 + i] = x[i];
          pb[n - 1 + i] = a * fabs (x[i]) + ex[i] * 1.00001;
        }
      y.resize (2 * N);
      ey.resize (2 * N);
      double g[64], ag[64];
      for (int k = 0; k < n; k++)
        {
          g[k] = 2 * t_c[n - 1 - k];       // symmetric, but do not rely on it
          ag[k] = fabs (g[k]);
        }
      for (size_t i = 0; i < N; i++)
        {
          double s = 0, b = 0;
          const double *p = &px[i], *q = &pb[i];
          for (int k = 0; k < n; k++)
            {
              s += g[k] * p[k];
              b += ag[k] * q[k];
            }
          y[2 * i] = s;
          ey[2 * i] = b + TINY;
          y[2 * i + 1] = p[n / 2];          // input i - (n/2 - 1)
          ey[2 * i + 1] = q[n / 2] + TINY;
        }
    }
  else
    {
      const size_t M = N / 2;
      vector<double> pe (n - 1 + M), po (n - 1 + M), be (n - 1 + M), bo (n - 1 + M);
      for (size_t i = 0; i < M; i++)
        {
          pe[n - 1 + i] = x[2 * i];
          po[n - 1 + i] = x[2 * i + 1];
          be[n - 1 + i] = a * fabs (x[2 * i]) + ex[2 * i] * 1.00001;
          bo[n - 1 + i] = a * fabs (x[2 * i + 1]) + ex[2 * i + 1] * 1.00001;
        }
      y.resize (M);
      ey.resize (M);
      double g[64], ag[64];
      for (int k = 0; k < n; k++)
        {
          g[k] = t_c[n - 1 - k];
          ag[k] = fabs (g[k]);
        }
      for (size_t i = 0; i < M; i++)
        {
          double s = 0, b = 0;
          const double *p = &pe[i], *q = &be[i];
          for (int k = 0; k < n; k++)
            {
              s += g[k] * p[k];
              b += ag[k] * q[k];
            }
          // centre tap: x[2i - (n-1)] = odd sample number i - n/2
          s += 0.5 * po[i + n - 1 - n / 2];
          b += 0.5 * bo[i + n - 1 - n / 2];
          y[i] = s;
          ey[i] = b + TINY;
        }
    }
}

AllpassBound
allpass_bound (const vector<double>& c, double u)
{
  // |error of the output| at time n <= sum over sections of sum_m |h_k[m]| |local error of section k at n-m|,
  // where h_k is the response from the local error to the output. With an envelope that decays by rho per
  // sample, local error[n-m] <= env[n] * rho^-m, so the inner sum is at most env[n] * sum_m |h_k[m]| rho^-m.
  AllpassBound b;
  double amax = 0;
  for (double a : c)
    amax = std::max (amax, a);
  b.rho = std::min (0.5 + 0.5 * std::max (amax, 0.5), 0.9999);
  if (b.rho < 0.97 && amax < 0.94)
    b.rho = 0.97;
  size_t L = std::min<size_t> (200000, 200 + (size_t) (40 / -log (std::max (amax, 0.5) / b.rho)));
  for (int from = -1; from < (int) c.size(); from++)
    {
      vector<double> h (L);
      h[0] = 1;
      if (from >= 0)                  // local error enters the recursion of section "from"
        for (size_t m = 1; m < L; m++)
          h[m] = -c[from] * h[m - 1];
      for (size_t k = from + 1; k < c.size(); k++)
        {
          double xp = 0, yp = 0;
          for (size_t m = 0; m < L; m++)
            {
              double v = c[k] * (h[m] - yp) + xp;
              xp = h[m];
              yp = h[m] = v;
            }
        }
      double sum = 0, w = 1;
      for (size_t m = 0; m < L; m++)
        {
          sum += fabs (h[m]) * w;
          w /= b.rho;
          if (w > 1e250)
            break;
        }
      sum *= 1.001;
      if (from < 0)
        b.k_in = sum;
      else
        b.k_sec.push_back (sum);
    }
  (void) u;
  return b;
}

void
allpass_path (const vector<double>& c, const vector<double>& x, const vector<double>& ex, vector<double>& y, vector<double>& ey, double u)
{
  static thread_local std::map<vector<double>, AllpassBound> cache;
  AllpassBound *bp;
  auto it = cache.find (c);
  if (it == cache.end())
    {
      if (cache.size() > 200)
        cache.clear();
      bp = &(cache[c] = allpass_bound (c, u));
    }
  else
    bp = &it->second;
  const AllpassBound& b = *bp;
  const size_t N = x.size(), K = c.size();
  // a second bound: errors passed on from section to section, which is tighter at the start of a signal and after silence;
  // s is the sum over the impulse response of an all-pass section, h[0] = c, h[m] = (1 - c^2) (-c)^(m-1). The local
  // error may enter at the output or at an internal state w[n] = x[n] - c w[n-1] (other structures of the section).
  vector<double> xp (K, 0.0), yp (K, 0.0), env (K, 0.0), s (K, 0.0), el (K, 0.0), lp (K, 0.0), w (K, 0.0);
  double env_in = 0;
  y.resize (N);
  ey.resize (N);
  for (size_t i = 0; i < N; i++)
    {
      double v = x[i];
      env_in = std::max (ex[i], env_in * b.rho);
      double e = env_in * b.k_in, e2 = ex[i];
      for (size_t k = 0; k < K; k++)
        {
          double r = c[k] * (v - yp[k]) + xp[k];
          double wn = v - c[k] * w[k];
          double local = 4.05 * u * (c[k] * (fabs (v) + fabs (yp[k])) + fabs (xp[k]) + fabs (r) + 0.5 * (fabs (wn) + fabs (w[k])));
          w[k] = wn;
          el[k] = local + lp[k] + c[k] * el[k];
          lp[k] = local;
          double through = c[k] * e2 + (1 - c[k] * c[k]) * s[k];
          s[k] = e2 + c[k] * s[k];
          e2 = through + el[k];
          env[k] = std::max (local, env[k] * b.rho);
          e += env[k] * b.k_sec[k];
          xp[k] = v;
          yp[k] = r;
          v = r;
        }
      y[i] = v;
      ey[i] = std::min (e, e2) * 1.0001 + TINY;
    }
}

static void
split_coefs (const vector<double>& c, vector<double>& c0, vector<double>& c1)
{
  for (size_t i = 0; i < c.size(); i++)
    (i & 1 ? c1 : c0).push_back (c[i]);
}
static vector<double>
iir_coefs (const RefIir& t)
{
  return vector<double> (t.c, t.c + t.n);
}
double fir_ref_coef (int stage, int prec, int i) { return find_fir (stage, prec).c[i]; }
double iir_ref_coef (int stage, int prec, int i) { return find_iir (stage, prec).c[i]; }

static void
iir_stage (bool up, const vector<double>& t, const vector<double>& x, const vector<double>& ex, vector<double>& y, vector<double>& ey)
{
  vector<double> c0, c1;
  split_coefs (t, c0, c1);
  vector<double> y0, y1, e0, e1;
  if (up)
    {
      allpass_path (c0, x, ex, y0, e0, U);
      allpass_path (c1, x, ex, y1, e1, U);
      const size_t N = x.size();
      y.resize (2 * N);
      ey.resize (2 * N);
      for (size_t i = 0; i < N; i++)
        {
          y[2 * i] = y0[i];
          y[2 * i + 1] = y1[i];
          ey[2 * i] = e0[i];
          ey[2 * i + 1] = e1[i];
        }
    }
  else
    {
      const size_t M = x.size() / 2;
      vector<double> a (M), b (M), ea (M), eb (M);
      for (size_t i = 0; i < M; i++)
        {
          a[i] = x[2 * i + 1];
          b[i] = x[2 * i];
          ea[i] = ex[2 * i + 1];
          eb[i] = ex[2 * i];
        }
      allpass_path (c0, a, ea, y0, e0, U);
      allpass_path (c1, b, eb, y1, e1, U);
      y.resize (M);
      ey.resize (M);
      for (size_t i = 0; i < M; i++)
        {
          y[i] = 0.5 * (y0[i] + y1[i]);
          ey[i] = 0.5 * (e0[i] + e1[i]) + 3 * U * (fabs (y0[i]) + fabs (y1[i])) + TINY;
        }
    }
}

static RefOut
run_stages (const Cfg& cfg, const vector<float>& xf, const vector<double> *coefs)
{
  RefOut r;
  vector<double> x (xf.begin(), xf.end()), ex (xf.size(), 0.0);
  int stages[3], n = 0;
  for (unsigned s = 2; s <= cfg.ratio; s *= 2)
    stages[n++] = s;
  if (!cfg.up())
    std::reverse (stages, stages + n);
  for (int i = 0; i < n; i++)
    {
      vector<double> y, ey;
      if (cfg.fir())
        {
          auto& t = find_fir (stages[i], cfg.prec);
          if (coefs)
            fir_stage (cfg.up(), coefs[stages[i] / 4].size(), coefs[stages[i] / 4].data(), x, ex, y, ey);
          else
            fir_stage (cfg.up(), t.n, t.c, x, ex, y, ey);
        }
      else
        iir_stage (cfg.up(), coefs ? coefs[stages[i] / 4] : iir_coefs (find_iir (stages[i], cfg.prec)), x, ex, y, ey);
      x.swap (y);
      ex.swap (ey);
    }
  r.y.swap (x);
  r.e.swap (ex);
  return r;
}

RefOut
model_run (const Cfg& cfg, const vector<float>& x)
{
  return run_stages (cfg, x, nullptr);
}
RefOut
model_run_coefs (const Cfg& cfg, const vector<float>& x, const vector<double> coefs[3])
{
  return run_stages (cfg, x, coefs);
}

double
model_gain_bound (const Cfg& cfg)
{
  double g = 1;
  for (unsigned s = 2; s <= cfg.ratio; s *= 2)
    {
      if (cfg.fir())
        {
          auto& t = find_fir (s, cfg.prec);
          double sum = 0;
          for (int i = 0; i < t.n; i++)
            sum += fabs (t.c[i]);
          g *= cfg.up() ? std::max (1.0, 2 * sum) : sum + 0.5;
        }
      else
        {
          auto& t = find_iir (s, cfg.prec);
          vector<double> c[2];
          split_coefs (iir_coefs (t), c[0], c[1]);
          double l1[2];
          for (int p = 0; p < 2; p++)
            {
              vector<double> h (3000);
              h[0] = 1;
              for (double a : c[p])
                {
                  double xp = 0, yp = 0;
                  for (double& v : h)
                    {
                      double r = a * (v - yp) + xp;
                      xp = v;
                      yp = v = r;
                    }
                }
              l1[p] = 0;
              for (double v : h)
                l1[p] += fabs (v);
            }
          g *= cfg.up() ? std::max (l1[0], l1[1]) : 0.5 * (l1[0] + l1[1]);
        }
    }
  return g;
}
size_t
model_memory (const Cfg& cfg)
{
  double m = 0; // in base rate samples
  for (unsigned s = 2; s <= cfg.ratio; s *= 2)
    m += double (fir_order (s, cfg.prec)) / (s / 2);
  return (size_t) ceil (m);
}
