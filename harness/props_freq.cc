// C07 C08 C09: delays, frequency response, round trip
#include "util.hh"
#include <math.h>
#include <complex>

using std::vector;
using std::string;
using namespace pbt;
typedef std::complex<double> cplx;

#ifdef MEASURE_TOLERANCES // development only: how far are the results from the tolerances?
static bool MEASURE = true;
static FILE *measure_file() { static FILE *f = fopen ("/tmp/b/measure", "a"); return f; }
#else
static const bool MEASURE = false;
static FILE *measure_file() { return stderr; }
#endif

static const double BASE = 44100, PASS = 18000;

static int
n_stages (const Cfg& cfg)
{
  return cfg.ratio == 8 ? 3 : cfg.ratio == 4 ? 2 : cfg.ratio == 2 ? 1 : 0;
}

// Impulse response on the time axis of the high sample rate: h[k + off], k >= -off.
// Measured with a given amplitude, position and partition; tol are rounding bounds of h.
struct Impulse
{
  vector<double> h, tol;
  int off = 0;
};
static Impulse
measure_impulse (Src& s, Ctx& c, const Cfg& cfg, size_t len /* base rate samples */)
{
  Impulse r;
  const double amp = ldexp (1 + s.draw (1024) / 1024.0, s.range (-12, 12));
  const size_t lead = s.draw (70);
  const bool warm = s.chance (1, 2); // the object was used and reset before
  c.note ("impulse of height %g at %zu%s; ", amp, lead, warm ? " after reset" : "");
  const unsigned R = cfg.ratio;
  r.off = R - 1;
  r.h.assign (len * R + r.off, 0.0);
  r.tol.assign (len * R + r.off, 0.0);
  for (unsigned p = 0; p < (cfg.up() ? 1 : R); p++)
    {
      const size_t unit = cfg.up() ? 1 : R;
      vector<float> x ((lead + len) * unit, 0.0f);
      x[lead * unit + p] = amp;
      Plan plan = gen_plan (s, c, cfg, x.size(), false);
      RS rs (cfg);
      if (warm)
        {
          vector<float> w (40 * unit, 0.7f), dummy;
          bench().process (rs, w.data(), w.size(), 0, 0, dummy);
          rs.reset();
        }
      vector<float> y = bench().run (rs, x, plan);
      RefOut ref = model_run (cfg, x);
      for (size_t i = 0; i < y.size(); i++)
        {
          int64_t k = cfg.up() ? int64_t (i) - int64_t (lead * R) : int64_t (i * R) - int64_t (lead * R + p);
          if (k < -r.off)
            {
              if (y[i] != 0)
                fail ("acausal", "%s: impulse at %zu: output[%zu] = %g before the impulse", cfg.str().c_str(), lead * unit + p, i, y[i]);
              continue;
            }
          if (size_t (k + r.off) >= r.h.size())
            continue;
          r.h[k + r.off] = y[i] / amp;
          r.tol[k + r.off] = ref.e[i] / amp;
        }
    }
  return r;
}

static cplx
dft (const Impulse& m, double w /* radians per high rate sample */)
{
  cplx sum = 0;
  cplx z = std::polar (1.0, -w), p = std::polar (1.0, w * m.off);
  for (size_t i = 0; i < m.h.size(); i++)
    {
      if ((i & 63) == 0)
        p = std::polar (1.0, -w * (double (i) - m.off));
      sum += m.h[i] * p;
      p *= z;
    }
  return sum;
}
// group delay in high rate samples
static double
group_delay (const Impulse& m, double w)
{
  cplx a = 0, b = 0;
  for (size_t i = 0; i < m.h.size(); i++)
    {
      double k = double (i) - m.off;
      cplx v = m.h[i] * std::polar (1.0, -w * k);
      a += v;
      b += v * k;
    }
  return (b / a).real();
}
static size_t
ir_len (const Cfg& cfg)
{
  return cfg.fir() ? model_memory (cfg) + 10 : 420;
}

/* --- C07 --- */

PROPERTY (c07_delay, "a case is a configuration (all enumerated evenly) and an impulse of random height, position and partition; the measured impulse response gives the symmetry centre (FIR) or the group delay up to 1 kHz (IIR), which is compared with delay(); all cases are non-trivial")
{
  Cfg cfg = gen_cfg (s);
  c.note ("%s; ", cfg.str().c_str());
  c.label (cfg.fir() ? "FIR" : "IIR");
  double d;
  {
    RS r (cfg);
    d = r.delay();
  }
  if (!(d >= 0) || !(d < 1e4))
    fail ("delay-range", "%s: delay() is %g", cfg.str().c_str(), d);
  Impulse m = measure_impulse (s, c, cfg, ir_len (cfg));
  if (cfg.fir())
    {
      if (cfg.up() && d != rint (d))
        fail ("delay-integer", "%s: delay() is %.17g, not an integer", cfg.str().c_str(), d);
      if (cfg.ratio == 2 && 2 * d != rint (2 * d))
        fail ("delay-half", "%s: delay() is %.17g, not a multiple of 0.5", cfg.str().c_str(), d);
      double cd = cfg.up() ? d : d * cfg.ratio; // centre on the high rate axis
      if (cd != rint (cd))
        fail ("delay-grid", "%s: delay() is %.17g: no multiple of 1/%u", cfg.str().c_str(), d, cfg.ratio);
      const int64_t centre = int64_t (cd) + m.off, n = m.h.size();
      for (int64_t j = 0; j < n; j++)
        {
          auto at = [&] (const vector<double>& v, int64_t i) { return i >= 0 && i < n ? v[i] : 0.0; };
          double a = at (m.h, centre + j), b = at (m.h, centre - j), tol = at (m.tol, centre + j) + at (m.tol, centre - j) + 1e-30;
          if (!(fabs (a - b) <= tol))
            fail ("symmetry", "%s: delay() is %g, but the impulse response is not symmetric: %.9g %lld samples after, %.9g %lld samples before", cfg.str().c_str(), d, a, (long long) j, b, (long long) j);
        }
      // the centre carries the signal
      double peak = fabs (m.h[centre]);
      if (cfg.up() ? fabs (peak - 1) > 1e-5 : fabs (peak * cfg.ratio - 1) > 1e-5)
        fail ("centre", "%s: the impulse response is %g at delay() %g", cfg.str().c_str(), m.h[centre], d);
    }
  else
    {
      double f = s.chance (1, 2) ? 1000 : s.draw (1000001) / 1000.0;
      c.note ("%g Hz", f);
      double g = group_delay (m, 2 * M_PI * f / (BASE * cfg.ratio));
      if (!cfg.up())
        g /= cfg.ratio;
      // The published value is for 1 kHz. Below, the group delay varies by up to 0.011 samples; with 8 bit, the two
      // paths of the filters (and thus its images) differ by that much.
      bool exact = f == 1000 && cfg.prec > 8;
      double tol = exact ? 0.0006 : 0.013;
      if (cfg.up())
        tol *= cfg.ratio == 2 ? 1 : cfg.ratio == 4 ? 2.5 : 6;
      if (MEASURE)
        fprintf (measure_file(), "GD %s %g %g\n", cfg.str().c_str(), f, fabs (g - d) / tol);
      if (!(fabs (g - d) <= tol))
        fail ("group-delay", "%s: group delay at %g Hz is %.8g output samples, delay() is %.8g", cfg.str().c_str(), f, g, d);
    }
  c.nontrivial();
}

PROPERTY (c07_position, "FIR up: an arbitrary stream is processed in an arbitrary partition and every input sample i has to be found at output i*ratio+delay(); non-trivial: at least one non-zero input sample was found")
{
  CfgFilter f;
  f.iir = false;
  Setup u = gen_setup (s, c, f, SIG_FINITE, false);
  if (!u.cfg.up())
    {
      // down, ratio 2: a smooth signal is found delay() output samples later (cubic: exact up to the filter's precision)
      RS r (u.cfg);
      double d = r.delay();
      const double w = 2 * M_PI * (20 + s.draw (4000)) / (BASE * u.cfg.ratio), ph = s.unit() * 7;
      for (size_t i = 0; i < u.x.size(); i++)
        u.x[i] = cos (w * i + ph);
      vector<float> y = bench().run (r, u.x, u.p);
      const size_t settle = model_memory (u.cfg) + 2;
      double tol = n_stages (u.cfg) * (u.cfg.prec == 1 ? 0.06 : 1.5 * ldexp (1.0, -u.cfg.prec)) + 3e-6;
      for (size_t i = settle; i < y.size(); i++)
        {
          double want = cos (w * u.cfg.ratio * (i - d) + ph);
          if (!(fabs (y[i] - want) <= tol))
            fail ("position-down", "%s: output[%zu] = %.9g, the input %g output samples earlier is %.9g", u.cfg.str().c_str(), i, y[i], d, want);
        }
      c.nontrivial (y.size() > settle);
      return;
    }
  RS r (u.cfg);
  double d = r.delay();
  vector<float> y = bench().run (r, u.x, u.p);
  RefOut ref = model_run (u.cfg, u.x);
  bool nt = false;
  if (d != rint (d) || d < 0)
    fail ("delay-integer", "%s: delay() is %.17g", u.cfg.str().c_str(), d);
  for (size_t i = 0; i < u.x.size(); i++)
    {
      size_t o = i * u.cfg.ratio + (size_t) d;
      if (o >= y.size())
        break;
      nt |= u.x[i] != 0;
      if (!(fabs ((double) y[o] - u.x[i]) <= ref.e[o]))
        fail ("position", "%s: input[%zu] = %.9g, output[%zu] = %.9g (delay() %g)", u.cfg.str().c_str(), i, u.x[i], o, y[o], d);
    }
  c.nontrivial (nt);
}

/* --- C08 --- */

// float arithmetic: errors of the taps (FIR), errors of the recursion which do not average out (IIR)
static double float_tol (const Cfg& cfg) { return n_stages (cfg) * (cfg.fir() ? 6e-8 : 4e-7); }
static double pass_tol (const Cfg& cfg) { return n_stages (cfg) * 1.5 * ldexp (1.0, -cfg.prec) + float_tol (cfg); }
static double stop_tol (const Cfg& cfg) { return pow (10, -(6.0 * cfg.prec - 1.5) / 20) + float_tol (cfg); }

PROPERTY (c08_response, "a case is a configuration (all enumerated evenly) and 24 frequencies within 0..18 kHz (band edges included); gain at each frequency and at all of its images (up) or aliases (down) is computed from the impulse response measured with random height, position and partition; all cases are non-trivial")
{
  Cfg cfg = gen_cfg (s);
  c.note ("%s; ", cfg.str().c_str());
  c.label (string (cfg.fir() ? "FIR" : "IIR") + fmt (" x%u", cfg.ratio));
  c.label (fmt ("precision %d", cfg.prec));
  Impulse m = measure_impulse (s, c, cfg, ir_len (cfg));
  const double gain = cfg.up() ? 1.0 / cfg.ratio : 1.0;
  const double fs = BASE * cfg.ratio;
  for (int k = 0; k < 24; k++)
    {
      double f = k == 0 ? PASS : k == 1 ? 0 : PASS * s.unit();
      double g = std::abs (dft (m, 2 * M_PI * f / fs)) * gain;
      if (MEASURE)
        fprintf (measure_file(), "PASS %s %g\n", cfg.str().c_str(), fabs (g - 1) / pass_tol (cfg));
      if (!(fabs (g - 1) <= pass_tol (cfg)))
        fail ("passband", "%s: gain at %.1f Hz is %.10f, deviation %.3g, allowed %.3g", cfg.str().c_str(), f, g, g - 1, pass_tol (cfg));
      for (unsigned i = 1; i <= cfg.ratio / 2; i++)
        for (int sign = -1; sign <= 1; sign += 2)
          {
            double fi = i * BASE + sign * f;
            if (fi > fs / 2)
              continue;
            double a = std::abs (dft (m, 2 * M_PI * fi / fs)) * gain;
            if (MEASURE)
              fprintf (measure_file(), "STOP %s %g\n", cfg.str().c_str(), a / stop_tol (cfg));
            if (!(a <= stop_tol (cfg)))
              fail ("stopband", "%s: gain at %.1f Hz (mirror of %.1f Hz) is %.2f dB, allowed %.2f dB", cfg.str().c_str(), fi, f, 20 * log10 (a), 20 * log10 (stop_tol (cfg)));
          }
    }
  c.nontrivial();
}

// least squares fit of sum of sines with the given frequencies (radians per sample)
static bool
fit (const float *y, size_t n, const vector<double>& w, vector<cplx>& amp, double& residual_peak)
{
  const size_t K = w.size() * 2;
  vector<double> M (K * K, 0.0), b (K, 0.0), v (K);
  auto basis = [&] (size_t i) {
    for (size_t k = 0; k < w.size(); k++)
      {
        v[2 * k] = cos (w[k] * i);
        v[2 * k + 1] = sin (w[k] * i);
      }
  };
  for (size_t i = 0; i < n; i++)
    {
      basis (i);
      for (size_t a = 0; a < K; a++)
        {
          b[a] += v[a] * y[i];
          for (size_t c = 0; c < K; c++)
            M[a * K + c] += v[a] * v[c];
        }
    }
  // Gauss-Jordan with pivoting
  for (size_t a = 0; a < K; a++)
    {
      size_t p = a;
      for (size_t r = a; r < K; r++)
        if (fabs (M[r * K + a]) > fabs (M[p * K + a]))
          p = r;
      if (fabs (M[p * K + a]) < 1e-3 * n)
        return false;
      for (size_t c = 0; c < K; c++)
        std::swap (M[a * K + c], M[p * K + c]);
      std::swap (b[a], b[p]);
      for (size_t r = 0; r < K; r++)
        if (r != a)
          {
            double q = M[r * K + a] / M[a * K + a];
            for (size_t c = a; c < K; c++)
              M[r * K + c] -= q * M[a * K + c];
            b[r] -= q * b[a];
          }
    }
  amp.clear();
  for (size_t k = 0; k < w.size(); k++)
    amp.push_back (cplx (b[2 * k] / M[2 * k * K + 2 * k], b[2 * k + 1] / M[(2 * k + 1) * K + 2 * k + 1]));
  residual_peak = 0;
  for (size_t i = 0; i < n; i++)
    {
      basis (i);
      double e = y[i];
      for (size_t k = 0; k < w.size(); k++)
        e -= amp[k].real() * v[2 * k] + amp[k].imag() * v[2 * k + 1];
      residual_peak = std::max (residual_peak, fabs (e));
    }
  return true;
}

PROPERTY (c08_sine, "a sine with random frequency, amplitude and phase is processed in a random partition; after the transient, a fit gives its gain and everything else in the output: images (up); or a sine outside the base band is processed (down) and the output is its alias; all cases are non-trivial")
{
  Cfg cfg = gen_cfg (s);
  c.note ("%s; ", cfg.str().c_str());
  c.label (string (cfg.fir() ? "FIR" : "IIR") + fmt (" x%u", cfg.ratio));
  c.label (fmt ("precision %d", cfg.prec));
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  const size_t settle = cfg.fir() ? model_memory (cfg) + 4 : 420, window = 900 + s.draw (1500);
  const double amp = ldexp (1 + s.unit(), s.range (-10, 10)), ph = s.unit() * 6.3;
  double f0 = 100 + s.unit() * (PASS - 100), f = f0;
  bool alias = !cfg.up() && s.chance (1, 2);
  if (alias)
    {
      unsigned i = 1 + s.draw (cfg.ratio / 2);
      f = i * BASE + (i == cfg.ratio / 2 || s.chance (1, 2) ? -f0 : f0);
    }
  c.note ("%g * sin at %g Hz; ", amp, f);
  c.label (alias ? "aliasing" : "pass band");
  vector<float> x ((settle + window) * unit);
  const double win = 2 * M_PI * f / (BASE * unit);
  for (size_t i = 0; i < x.size(); i++)
    x[i] = amp * sin (win * i + ph);
  Plan p = gen_plan (s, c, cfg, x.size(), false);
  RS r (cfg);
  vector<float> y = bench().run (r, x, p);
  const size_t skip = r.n_out (settle * unit);
  const double noise = 4e-7 * n_stages (cfg);
  if (alias)
    {
      double pk = 0;
      for (size_t i = skip; i < y.size(); i++)
        pk = std::max (pk, (double) fabs (y[i]));
      if (!(pk <= amp * (stop_tol (cfg) + 3 * noise)))
        fail ("alias", "%s: sine with amplitude %g at %.1f Hz gives an alias of %.2f dB, allowed %.2f dB", cfg.str().c_str(), amp, f, 20 * log10 (pk / amp), 20 * log10 (stop_tol (cfg) + 3 * noise));
    }
  else
    {
      double w = 2 * M_PI * f / (BASE * (cfg.up() ? cfg.ratio : 1)), res;
      vector<cplx> a;
      if (!fit (&y[skip], y.size() - skip, { w }, a, res))
        fail ("fit", "%s: bad fit", cfg.str().c_str());
      double images = cfg.up() ? (cfg.ratio - 1) * stop_tol (cfg) : 0;
      double g = std::abs (a[0]) / amp;
      if (MEASURE)
        fprintf (measure_file(), "SINE %s %g %g\n", cfg.str().c_str(), fabs (g - 1) / (pass_tol (cfg) + noise + 0.02 * images), res / (amp * (images + noise)));
      if (!(fabs (g - 1) <= pass_tol (cfg) + noise + 0.02 * images))
        fail ("sine-gain", "%s: gain at %.1f Hz is %.10f", cfg.str().c_str(), f, g);
      if (!(res <= amp * (images * 1.05 + 3 * noise)))
        fail ("sine-images", "%s: a sine with amplitude %g at %.1f Hz comes with other signals up to %.2f dB, allowed %.2f dB", cfg.str().c_str(), amp, f, 20 * log10 (res / amp), 20 * log10 (images * 1.05 + 3 * noise));
    }
  c.nontrivial();
}

/* --- C09 --- */

PROPERTY (c09_round_trip, "a case is a ratio, precision and filter (up and down: SSE or scalar independently), a sum of 1..6 sines below 18 kHz and independent partitions for both directions; all cases are non-trivial")
{
  Cfg up = gen_cfg (s), down;
  up.mode = 0;
  down = up;
  down.mode = 1;
  down.sse = s.draw (2);
  c.note ("%s, %s; ", up.str().c_str(), down.str().c_str());
  c.label (string (up.fir() ? "FIR" : "IIR") + fmt (" x%u", up.ratio));
  c.label (fmt ("precision %d", up.prec));
  const size_t settle = up.fir() ? 2 * model_memory (up) + 8 : 900, window = 1200 + s.draw (800);
  const int tones = 1 + s.draw (6);
  vector<double> w, a, ph;
  double level = ldexp (1.0, s.range (-10, 10)), sum = 0;
  for (int i = 0; i < tones; i++)
    {
      // well separated frequencies, so that the fit is well conditioned
      double lo = 100 + i * (PASS - 100) / tones, hi = 100 + (i + 1) * (PASS - 100) / tones - (i + 1 < tones ? 250 : 0);
      double f = lo + s.unit() * (hi - lo);
      w.push_back (2 * M_PI * f / BASE);
      a.push_back (level * (0.05 + s.unit()));
      ph.push_back (s.unit() * 6.3);
      sum += a.back();
      c.note ("%.1f Hz ", f);
    }
  vector<float> x (settle + window);
  for (size_t i = 0; i < x.size(); i++)
    {
      double v = 0;
      for (int k = 0; k < tones; k++)
        v += a[k] * sin (w[k] * i + ph[k]);
      x[i] = v;
    }
  RS u (up), d (down);
  Plan p1 = gen_plan (s, c, up, x.size(), false);
  vector<float> y = bench().run (u, x, p1);
  Plan p2 = gen_plan (s, c, down, y.size(), false);
  vector<float> z = bench().run (d, y, p2);
  if (z.size() != x.size())
    fail ("size", "%zu samples instead of %zu", z.size(), x.size());
  const double tol = n_stages (up) * 3.2 * ldexp (1.0, -up.prec) + n_stages (up) * 8e-7;
  const double T = u.delay() / up.ratio + d.delay();
  if (up.fir())
    {
      for (size_t i = settle; i < z.size(); i++)
        {
          double v = 0;
          for (int k = 0; k < tones; k++)
            v += a[k] * sin (w[k] * (i - T) + ph[k]);
          if (!(fabs (z[i] - v) <= tol * sum))
            fail ("round-trip", "%s: after up- and downsampling sample %zu is %.9g, expected %.9g (delay %g), error %.3g, allowed %.3g", up.str().c_str(), i, z[i], v, T, z[i] - v, tol * sum);
        }
    }
  else
    {
      vector<cplx> amp;
      double res;
      if (!fit (&z[settle], z.size() - settle, w, amp, res))
        fail ("fit", "%s: bad fit", up.str().c_str());
      for (int k = 0; k < tones; k++)
        if (!(fabs (std::abs (amp[k]) - a[k]) <= tol * a[k] + 1e-6 * sum))
          fail ("round-trip-gain", "%s: after up- and downsampling a sine at %.1f Hz has amplitude %.9g instead of %.9g", up.str().c_str(), w[k] * BASE / 2 / M_PI, std::abs (amp[k]), a[k]);
      if (MEASURE)
        fprintf (measure_file(), "RES %s %g\n", up.str().c_str(), res / (n_stages (up) * 2e-6 * sum));
      if (!(res <= n_stages (up) * 2e-6 * sum))
        fail ("round-trip-residual", "%s: after up- and downsampling there is a residual of %.3g relative to the signal", up.str().c_str(), res / sum);
    }
  c.nontrivial();
}
