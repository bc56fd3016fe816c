// C21, C22: the designer of polyphase IIR filters (hiir), against an independent elliptic design
#include "pandaresampler/hiir/PolyphaseIir2Designer.cpp"
#include "pbt.hh"
#include <complex>
#include <math.h>
#include <vector>
#include <algorithm>
#include <string>
#include <thread>
using std::vector;
using namespace pbt;
typedef PandaResampler::hiir::PolyphaseIir2Designer D;
typedef long double ld;
typedef std::complex<double> cplx;

static const ld PI_L = 3.141592653589793238462643383279502884L;

// ---- reference: elliptic half-band filters from Jacobi elliptic functions (AGM), in long double
static ld
agm_K (ld kp) // complete elliptic integral K for complementary modulus kp
{
  ld a = 1, b = kp;
  for (int i = 0; i < 40 && fabsl (a - b) > 1e-19L * a; i++)
    {
      ld t = (a + b) / 2;
      b = sqrtl (a * b);
      a = t;
    }
  return PI_L / (a + b);
}
static void
jacobi (ld u, ld k, ld kp, ld& sn, ld& cn, ld& dn) // arithmetic-geometric mean and descending Landen transformation
{
  ld a[40], c[40];
  a[0] = 1;
  c[0] = k;
  ld b = kp;
  int n = 0;
  while (fabsl (c[n]) > 1e-20L && n < 38)
    {
      a[n + 1] = (a[n] + b) / 2;
      c[n + 1] = (a[n] - b) / 2;
      b = sqrtl (a[n] * b);
      n++;
    }
  ld phi = ldexpl (a[n] * u, n);
  for (int i = n; i > 0; i--)
    phi = (phi + asinl (std::max (-1.0L, std::min (1.0L, c[i] * sinl (phi) / a[i])))) / 2;
  sn = sinl (phi);
  cn = cosl (phi);
  dn = sqrtl (cn * cn + kp * kp * sn * sn);
}
struct Elliptic
{
  ld k, kp, K, q;
  explicit Elliptic (double t)
  {
    ld x = tanl ((1 - 2 * (ld) t) * PI_L / 4);
    k = x * x;
    kp = sqrtl ((1 - k) * (1 + k));
    K = agm_K (kp);
    q = expl (-PI_L * agm_K (k) / K);
  }
  vector<double>
  coefs (int n) const
  {
    vector<double> r;
    for (int c = 1; c <= n; c++)
      {
        ld sn, cn, dn;
        jacobi (2 * K * c / (2 * n + 1), k, kp, sn, cn, dn);
        ld x = cn * dn / (1 + k * sn * sn);
        r.push_back ((1 - x) / (1 + x));
      }
    return r;
  }
  double predicted (int n) const   // 4 sqrt(q1) as an approximation of k1 = k^N... (never below the true value)
  {
    return 10 * log10l (1 + 1 / (4 * powl (q, (2 * n + 1) * 0.5L)));
  }
  double exact (int n) const
  {
    ld q1 = powl (q, 2 * n + 1), t2 = 0, t3 = 1;
    for (int i = 0; i < 30; i++)
      {
        t2 += 2 * powl (q1, i * (i + 1));
        t3 += 2 * powl (q1, (i + 1) * (i + 1));
      }
    ld k1 = sqrtl (q1) * (t2 / t3) * (t2 / t3);
    return 10 * log10l (1 + 1 / k1);
  }
};
static void
response (const double *c, int n, double f, cplx& A0, cplx& A1)
{
  double w = 2 * M_PI * f;
  cplx u = std::polar (1.0, -2 * w);
  A0 = 1;
  A1 = std::polar (1.0, -w);
  for (int i = 0; i < n; i++)
    (i & 1 ? A1 : A0) *= (c[i] + u) / (1.0 + c[i] * u);
}
static double
lowpass (const vector<double>& c, double f)
{
  cplx a, b;
  response (c.data(), c.size(), f, a, b);
  return std::abs (a + b) / 2;
}
static double
gen_transition (Src& s, Ctx& c)
{
  double t;
  switch (s.weighted ({ 4, 4, 2, 2, 1 }))
    {
      case 0:  t = 0.001 + 0.498 * s.unit(); break;
      case 1:  t = 0.001 * pow (499, s.unit()); break;
      case 2:  t = 0.5 - 0.001 * pow (400, s.unit()); break;
      case 3:  { // transition bands of audio oversampling: pass band 18 kHz..20 kHz
                 double rate = 44100.0 * (1 << s.draw (3)), pb = 18000 + s.draw (2001);
                 t = (rate / 2 - pb) / rate;
                 break; }
      default: t = s.draw (2) ? 0.499 : 0.001; c.label ("transition at the limit");
    }
  t = std::min (0.499, std::max (0.001, t));
  c.label (t < 0.01 ? "transition < 0.01" : t < 0.1 ? "transition < 0.1" : t < 0.4 ? "transition < 0.4" : "transition >= 0.4");
  return t;
}
static void
check_design (const vector<double>& c, const Elliptic& e, double t, const char *what)
{
  int n = c.size();
  vector<double> ref = e.coefs (n);
  for (int i = 0; i < n; i++)
    {
      if (!(c[i] > 0 && c[i] < 1))
        fail ("coefficient range", "%s: transition %.17g: coefficient %d of %d is %.17g", what, t, i, n, c[i]);
      if (i && !(c[i] > c[i - 1]))
        fail ("coefficient order", "%s: transition %.17g: coefficients %d, %d of %d are %.17g, %.17g", what, t, i - 1, i, n, c[i - 1], c[i]);
      double tol = 1e-11 + 1e-9 * ref[i] * (1 - ref[i]);
      if (!(fabs (c[i] - ref[i]) <= tol))
        fail ("coefficient value", "%s: transition %.17g: coefficient %d of %d is %.17g, elliptic design has %.17g", what, t, i, n, c[i], ref[i]);
    }
}
static void
check_response (const vector<double>& c, double t, double att)
{
  // stop band from 0.25 + t/2 to 0.5, denser towards the band edge
  int n = c.size(), pts = 40 + 16 * n;
  double lo = 0.25 + t / 2, worst = 0, at = 0;
  for (int i = 0; i <= pts; i++)
    {
      double u = i / (double) pts, f = lo + (0.5 - lo) * u * u * u;
      double m = lowpass (c, f);
      if (m > worst)
        {
          worst = m;
          at = f;
        }
    }
  double limit = pow (10, -att / 20);
  if (!(worst <= limit * 1.002 + 5e-13 + 5e-18 / (t * t)))
    fail ("attenuation", "transition %.17g, %d coefficients: %.6f dB expected, response at %.17g is %.6f dB", t, n, att, at, -20 * log10 (worst));
  // pass band: power complementary, |H(f)|^2 + |H(0.5-f)|^2 = 1
  for (int i = 0; i <= 20; i++)
    {
      double f = (0.25 - t / 2) * i / 20, m = lowpass (c, f);
      double floor2 = 1 - limit * limit * 1.005 - 4e-15 * (n + 1);
      if (!(m * m >= floor2) || !(m <= 1 + 1e-14 * (n + 1)))
        fail ("pass band", "transition %.17g, %d coefficients, %.6f dB: pass band response at %.17g is %.17g", t, n, att, f, m);
    }
}

PROPERTY (c21_spec, "a case is a transition bandwidth of 0.001..0.499 and an attenuation of 0.1..200 dB (also at the limits of a coefficient count); the design is compared with an independent elliptic design (Jacobi functions by AGM) and with its measured response; non-trivial: always")
{
  double t = gen_transition (s, c);
  Elliptic e (t);
  double att;
  switch (s.weighted ({ 4, 3, 4, 1 }))
    {
      case 0:  att = 0.1 + 199.9 * s.unit(); break;
      case 1:  att = 0.1 * pow (2000, s.unit()); break;
      case 2:  { int n = 1 + s.draw (30);
                 double d = pow (10, -8 + 7 * s.unit());
                 att = e.predicted (n) + (s.draw (2) ? d : -d);
                 c.label ("attenuation at a step of the number of coefficients");
                 break; }
      default: att = s.pick (vector<double> { 48, 72, 96, 120, 144, 0.1, 200, 3, 1 });
    }
  att = std::min (200.0, std::max (0.1, att));
  c.note ("attenuation %.17g dB, transition %.17g; ", att, t);
  c.nontrivial();
  int n = D::compute_nbr_coefs_from_proto (att, t);
  if (n < 1 || n > 200)
    fail ("number of coefficients", "attenuation %.17g, transition %.17g: %d coefficients", att, t, n);
  const double eps = 1e-7;
  if (!(e.exact (n) >= att - eps))
    fail ("too few coefficients", "attenuation %.17g, transition %.17g: %d coefficients reach only %.9f dB", att, t, n, e.exact (n));
  if (n > 1 && !(e.predicted (n - 1) <= att + eps))
    fail ("too many coefficients", "attenuation %.17g, transition %.17g: %d coefficients, but %d reach %.9f dB", att, t, n, n - 1, e.predicted (n - 1));
  vector<double> buf (n + 4, -77);
  int n2 = D::compute_coefs (buf.data(), att, t);
  if (n2 != n)
    fail ("inconsistent count", "attenuation %.17g, transition %.17g: compute_coefs() returns %d, compute_nbr_coefs_from_proto() %d", att, t, n2, n);
  for (size_t i = n; i < buf.size(); i++)
    if (buf[i] != -77)
      fail ("overrun", "attenuation %.17g, transition %.17g: coefficient %zu written, only %d exist", att, t, i, n);
  vector<double> co (buf.begin(), buf.begin() + n);
  check_design (co, e, t, "compute_coefs");
  check_response (co, t, att);
  vector<double> buf2 (n + 4, -77);
  D::compute_coefs_spec_order_tbw (buf2.data(), n, t);
  for (size_t i = 0; i < buf2.size(); i++)
    if (!(fabs (buf2[i] - buf[i]) <= 1e-12))
      fail ("inconsistent coefficients", "attenuation %.17g, transition %.17g: coefficient %zu is %.17g from compute_coefs(), %.17g from compute_coefs_spec_order_tbw()", att, t, i, buf[i], buf2[i]);
  c.label (n == 1 ? "1 coefficient" : n < 5 ? "2..4 coefficients" : n < 12 ? "5..11 coefficients" : "12 or more coefficients");
}

PROPERTY (c21_order, "a case is a transition bandwidth of 0.001..0.499 and a number of coefficients whose attenuation is at most 200 dB; coefficients and attenuation are compared with an independent elliptic design, the response is measured; non-trivial: always")
{
  double t = gen_transition (s, c);
  Elliptic e (t);
  int n = 1 + s.draw (s.draw (2) ? 40 : 12);
  while (n > 1 && e.predicted (n) > 200)
    n--;
  c.note ("%d coefficients, transition %.17g; ", n, t);
  c.nontrivial();
  double att = D::compute_atten_from_order_tbw (n, t);
  if (!(att >= e.predicted (n) - 1e-7 && att <= e.exact (n) + 1e-7))
    fail ("predicted attenuation", "%d coefficients, transition %.17g: predicted attenuation %.9f, expected %.9f .. %.9f", n, t, att, e.predicted (n), e.exact (n));
  vector<double> buf (n + 4, -77);
  D::compute_coefs_spec_order_tbw (buf.data(), n, t);
  for (size_t i = n; i < buf.size(); i++)
    if (buf[i] != -77)
      fail ("overrun", "%d coefficients, transition %.17g: coefficient %zu written", n, t, i);
  vector<double> co (buf.begin(), buf.begin() + n);
  check_design (co, e, t, "compute_coefs_spec_order_tbw");
  check_response (co, t, att);
  // requesting a little less than this attenuation needs at most these coefficients, a little more needs more
  if (att > 0.2 && att < 199)
    {
      int lo = D::compute_nbr_coefs_from_proto (att - 1e-6, t), hi = D::compute_nbr_coefs_from_proto (e.exact (n) + 1e-6, t);
      if (lo > n || hi <= n)
        fail ("inconsistent order", "%d coefficients, transition %.17g, %.9f dB: %d coefficients for slightly less, %d for more", n, t, att, lo, hi);
    }
}

// ---- delays
static double
gen_freq (Src& s)
{
  switch (s.weighted ({ 4, 2, 2, 1, 1 }))
    {
      case 0:  return s.draw (1u << 23) * (0.5 / (1u << 23));
      case 1:  return 0.25 + (s.draw (2) ? 1 : -1) * 0.24 * pow (10, -7 * s.unit());
      case 2:  return 0.5 * pow (10, -9 * s.unit() - 0.001);
      case 3:  return 0.5 - 0.5 * pow (10, -7 * s.unit() - 0.001);
      default: return s.draw (2) ? 0.25 : 0;
    }
}
static double
gen_coef (Src& s)
{
  switch (s.weighted ({ 4, 2, 2, 1 }))
    {
      case 0:  return s.unit();
      case 1:  return pow (10, -9 * s.unit());
      case 2:  return 1 - pow (10, -7 * s.unit() - 0.001);
      default: return 0;
    }
}
// derivative of the phase of (a + u) / (1 + a u), u = z^-2 (or with -u), from the logarithmic derivative
static double
cell_group_delay (double a, double f, bool ph, double& tol)
{
  std::complex<ld> u = std::polar ((ld) 1, -4 * PI_L * f);
  if (ph)
    u = -u;
  std::complex<ld> r = u * ((ld) 1 / ((ld) a + u) - (ld) a / ((ld) 1 + (ld) a * u));
  double tau = 2 * (double) r.real();
  double den = std::norm ((ld) 1 + (ld) a * u);
  tol = fabs (tau) * (1e-12 + 3e-14 / den + 2e-15 / (1 - a)) + 1e-13;
  return tau;
}

PROPERTY (c22_group_delay, "a case is a cell or a filter of 1..20 coefficients in [0, 1), a frequency in [0, 0.5) (also near 0, 0.25 and 0.5) and the phaser flag; the closed form is compared with the logarithmic derivative of the response in long double; non-trivial: some coefficient is not 0")
{
  int n = 1 + s.draw (20);
  double f = gen_freq (s);
  bool ph = s.draw (2);
  vector<double> co (n);
  for (auto& x : co)
    x = std::min (gen_coef (s), 0.9999999);
  if (s.draw (2))
    std::sort (co.begin(), co.end());
  c.note ("f %.17g, phaser %d, coefs", f, ph);
  double sum = 0, sum_tol = 0;
  for (int i = 0; i < n; i++)
    {
      c.note (" %.17g", co[i]);
      c.nontrivial (c.is_nontrivial || co[i] != 0);
      double tol, ref = cell_group_delay (co[i], f, ph, tol);
      double got = D::compute_group_delay (co[i], f, ph);
      if (!(fabs (got - ref) <= tol))
        fail ("group delay of a cell", "a %.17g f %.17g phaser %d: %.17g, derivative of the phase is %.17g", co[i], f, ph, got, ref);
      if (!(got >= 0))
        fail ("negative group delay", "a %.17g f %.17g phaser %d: %.17g", co[i], f, ph, got);
      if (i % 2 == 0)
        {
          sum += ref;
          sum_tol += tol;
        }
    }
  double got = D::compute_group_delay (co.data(), n, f, ph);
  if (!(fabs (got - sum) <= sum_tol + 1e-12 * sum))
    fail ("group delay of a filter", "%d coefficients, f %.17g phaser %d: %.17g, sum over A0 is %.17g", n, f, ph, got, sum);
  c.label (ph ? "phaser mode" : "normal mode");
  c.label (f == 0 ? "f = 0" : f == 0.25 ? "f = 0.25" : "other f");
}

PROPERTY (c22_phase_delay, "a case is a coefficient in [0, 1) and a frequency in [0, 0.5); the phase delay is compared with the continuous phase of the response divided by the angular frequency, in long double; non-trivial: the coefficient is not 0")
{
  double a = std::min (gen_coef (s), 0.9999999), f = gen_freq (s);
  c.note ("a %.17g f %.17g", a, f);
  c.nontrivial (a != 0);
  double got = D::compute_phase_delay (a, f), ref, tol;
  ld w = 2 * PI_L * f;
  if (f == 0)
    {
      ref = 2 * (1 - a) / (1 + a);
      tol = 1e-12;
    }
  else
    {
      // (a + u) = u conj (1 + a u) on the unit circle, so the phase is -2w - 2 arg (1 + a u); 1 + a u is in the right half plane
      std::complex<ld> d = (ld) 1 + (ld) a * std::polar ((ld) 1, -2 * w);
      ref = (double) ((2 * w + 2 * std::arg (d)) / w);
      double wd = (double) w;
      tol = 1e-12 + (5e-15 + 1e-14 * wd / std::min (1.0, (double) std::norm (d))) / wd;
    }
  if (!(fabs (got - ref) <= tol))
    fail ("phase delay", "a %.17g f %.17g: %.17g, phase of the response gives %.17g", a, f, got, ref);
  if (!(got >= -1e-15))
    fail ("negative phase delay", "a %.17g f %.17g: %.17g", a, f, got);
  // near 0 Hz phase delay and group delay agree
  if (f < 1e-6)
    {
      double g = D::compute_group_delay (a, f, false);
      if (!(fabs (g - got) <= 1e-6 * g + tol))
        fail ("phase delay at low frequencies", "a %.17g f %.17g: phase delay %.17g, group delay %.17g", a, f, got, g);
    }
}

PROPERTY (c22_search, "a case is a number of coefficients, frequency, precision, bounds of attenuation and transition, and a group delay which is that of a design inside (or, one in four, anything); success must come with a filter that meets everything, failure must have a reason; non-trivial: the group delay is reachable")
{
  int n = 1 + s.draw (12);
  double f = s.weighted ({ 3, 1 }) == 0 ? s.draw (1000) * 0.0002 : gen_freq (s);
  f = std::min (f, 0.4999);
  double prec = s.weighted ({ 3, 3 }) == 0 ? 1e-6 : pow (10, -8 + 7 * s.unit());
  double tlb = 0.001, tub = 0.499;
  if (s.draw (2))
    {
      tlb = 0.001 + 0.4 * s.unit();
      tub = tlb + 0.001 + (0.498 - tlb) * s.unit();
      tub = std::min (tub, 0.499);
    }
  auto gd_at = [&] (double t) {
    vector<double> r (n);
    D::compute_coefs_spec_order_tbw (r.data(), n, t);
    return D::compute_group_delay (r.data(), n, f, false);
  };
  double g_lb = gd_at (tlb), g_ub = gd_at (tub), target, t0 = 0;
  if (s.weighted ({ 3, 1 }) == 0)
    {
      t0 = tlb + (tub - tlb) * (0.001 + 0.998 * s.unit());
      target = gd_at (t0);
    }
  else
    target = pow (10, -2 + 4 * s.unit());
  double alb = 0.001, aub = 10000;
  bool tight = s.weighted ({ 3, 1 });
  if (tight)
    {
      double a1 = D::compute_atten_from_order_tbw (n, tlb), a2 = D::compute_atten_from_order_tbw (n, tub);
      alb = std::max (0.001, a1 + (a2 - a1) * (1.4 * s.unit() - 0.3));
      aub = alb + (a2 - a1) * s.unit() + 0.01;
    }
  bool defaults = tlb == 0.001 && tub == 0.499 && !tight && prec == 1e-6 && s.draw (2);
  bool want_att = !s.chance (1, 5), want_tr = !s.chance (1, 5);
  c.note ("%d coefficients, f %.17g, group delay %.17g (%.17g..%.17g reachable), prec %g, attenuation %g..%g, transition %.9g..%.9g%s; ", n, f, target, g_lb, g_ub, prec, alb, aub, tlb, tub, defaults ? " (default arguments)" : "");
  if (!(target > 0))
    return;
  vector<double> buf (n + 4, -77);
  double att = -1, tr = -1;
  int res = defaults ? D::compute_coefs_spec_order_gdly (buf.data(), want_att ? &att : nullptr, want_tr ? &tr : nullptr, n, target, f)
                     : D::compute_coefs_spec_order_gdly (buf.data(), want_att ? &att : nullptr, want_tr ? &tr : nullptr, n, target, f, prec, alb, aub, tlb, tub);
  for (size_t i = n; i < buf.size(); i++)
    if (buf[i] != -77)
      fail ("overrun", "%d coefficients: coefficient %zu written", n, i);
  double margin = 1e-9 * (1 + fabs (target));
  bool inside = (target > std::min (g_lb, g_ub) + margin && target < std::max (g_lb, g_ub) - margin);
  bool outside = (target < std::min (g_lb, g_ub) - margin || target > std::max (g_lb, g_ub) + margin);
  c.nontrivial (inside);
  c.label (res == 0 ? "success" : res == -1 ? "FAIL_GD_TBW" : res == -2 ? "FAIL_ATTEN" : "FAIL_CONV");
  if (res == 0)
    {
      vector<double> co (buf.begin(), buf.begin() + n);
      double g = 0;
      for (int i = 0; i < n; i += 2)
        {
          double tol;
          g += cell_group_delay (co[i], f, false, tol);
        }
      if (!(fabs (g - target) <= prec * (1 + 1e-6) + 1e-10 * target))
        fail ("group delay missed", "success, but group delay is %.17g, target %.17g, prec %g", g, target, prec);
      if (want_tr)
        {
          if (!(tr >= tlb && tr <= tub))
            fail ("transition bounds", "success, but transition is %.17g, bounds %.17g .. %.17g", tr, tlb, tub);
          vector<double> r (n);
          D::compute_coefs_spec_order_tbw (r.data(), n, tr);
          for (int i = 0; i < n; i++)
            if (!(fabs (r[i] - co[i]) <= 1e-12))
              fail ("transition value", "returned transition %.17g belongs to other coefficients (%d: %.17g, not %.17g)", tr, i, r[i], co[i]);
        }
      if (want_att)
        {
          if (!(att >= alb && att <= aub))
            fail ("attenuation bounds", "success, but attenuation is %.17g, bounds %.17g .. %.17g", att, alb, aub);
          if (want_tr && !(fabs (D::compute_atten_from_order_tbw (n, tr) - att) <= 1e-9 * att))
            fail ("attenuation value", "returned attenuation %.17g, transition %.17g has %.17g", att, tr, D::compute_atten_from_order_tbw (n, tr));
        }
      if (outside)
        fail ("unreachable", "success for group delay %.17g, bounds allow %.17g .. %.17g", target, g_lb, g_ub);
    }
  else
    {
      if (res != -1 && res != -2 && res != -3)
        fail ("result code", "result %d", res);
      if (inside && !tight)
        fail ("no solution found", "result %d, but the group delay is reachable: %.17g in %.17g .. %.17g", res, target, g_lb, g_ub);
      if (inside && tight && res == -1)
        fail ("wrong reason", "result %d, but the group delay is reachable: %.17g in %.17g .. %.17g", res, target, g_lb, g_ub);
    }
}

namespace {
struct Spec { double t, att, f, gd, prec; int n; };
}
// everything one function of the designer returns for a specification
static vector<double>
evaluate (const Spec& p, int fn)
{
  vector<double> r;
  switch (fn)
    {
    case 0:
      r.push_back (D::compute_nbr_coefs_from_proto (p.att, p.t));
      break;
    case 1:
      r.push_back (D::compute_atten_from_order_tbw (p.n, p.t));
      break;
    case 2:
      r.resize (D::compute_nbr_coefs_from_proto (p.att, p.t) + 1);
      r.back() = D::compute_coefs (r.data(), p.att, p.t);
      break;
    case 3:
      r.resize (p.n);
      D::compute_coefs_spec_order_tbw (r.data(), p.n, p.t);
      break;
    case 4:
      {
        vector<double> co (p.n);
        D::compute_coefs_spec_order_tbw (co.data(), p.n, p.t);
        r.push_back (D::compute_group_delay (co.data(), p.n, p.f, p.n & 1));
        r.push_back (D::compute_group_delay (co[0], p.f, p.n & 1));
        r.push_back (D::compute_phase_delay (co[0], p.f));
      }
      break;
    case 5:
      {
        r.assign (p.n + 3, -1);
        int res = D::compute_coefs_spec_order_gdly (r.data(), &r[p.n], &r[p.n + 1], p.n, p.gd, p.f, p.prec);
        if (res != 0)
          r.assign (p.n + 3, 0); // nothing is promised about the other results
        r[p.n + 2] = res;
      }
      break;
    }
  return r;
}
static void
check_same (const vector<double>& a, const vector<double>& b, const Spec& p, int fn, const char *when)
{
  static const char *names[] = { "compute_nbr_coefs_from_proto", "compute_atten_from_order_tbw", "compute_coefs", "compute_coefs_spec_order_tbw", "delays", "compute_coefs_spec_order_gdly" };
  for (size_t i = 0; i < std::max (a.size(), b.size()); i++)
    if (a.size() != b.size() || !(a[i] == b[i] || (std::isnan (a[i]) && std::isnan (b[i]))))
      fail ("history", "%s (transition %.17g, attenuation %.17g, %d coefficients): result %zu of %zu is %.17g %s, %.17g before", names[fn], p.t, p.att, p.n, i, b.size(),
            i < b.size() ? b[i] : NAN, when, i < a.size() ? a[i] : NAN);
}
PROPERTY (c21_pure, "a case is a pool of 2..5 specifications, some of which differ from others by a factor of 1 +- 2^-3 .. 2^-50 in one value, and a sequence of 4..40 calls of all functions with them; each result is compared bit for bit with the one obtained after calls with quite different arguments, coefficients also with the independent design; one case in eight runs the sequence in several threads; non-trivial: two specifications are close to each other")
{
  vector<Spec> pool;
  const int n_specs = 2 + s.draw (4);
  bool close = false;
  for (int i = 0; i < n_specs; i++)
    {
      Spec p;
      if (i && s.chance (2, 3))
        {
          p = pool[s.draw (i)];
          const int what = s.draw (5);
          const double factor = 1 + (s.draw (2) ? 1 : -1) * ldexp (1 + s.unit(), -3 - (int) s.draw (48));
          if (what == 0 || what == 1)
            p.t = std::min (0.499, std::max (0.001, p.t * factor));
          else if (what == 2)
            p.att = std::min (200.0, std::max (0.1, p.att * factor));
          else if (what == 3)
            p.f = std::min (0.4999, p.f * factor);
          else
            p.gd *= factor;
          close = true;
        }
      else
        {
          p.t = gen_transition (s, c);
          p.att = 0.1 + 199.9 * s.unit();
          p.f = 0.49 * s.unit();
          p.prec = pow (10, -7 + 6 * s.unit());
          p.n = 1 + s.draw (12);
          p.gd = pow (10, -1 + 2 * s.unit());
        }
      pool.push_back (p);
      c.note ("(transition %.17g, %.17g dB, %d coefficients, f %.17g, delay %.17g +- %g) ", p.t, p.att, p.n, p.f, p.gd, p.prec);
    }
  c.nontrivial (close);
  std::vector<std::vector<vector<double>>> want (n_specs);
  const Spec far[] = { { 0.0371, 61, 0.03, 1.5, 1e-3, 7 }, { 0.283, 133, 0.21, 4.5, 1e-2, 3 } };
  for (int i = 0; i < n_specs; i++)
    for (int fn = 0; fn < 6; fn++)
      {
        for (auto& d : far)
          evaluate (d, fn);
        want[i].push_back (evaluate (pool[i], fn));
      }
  for (int i = 0; i < n_specs; i++)
    {
      Elliptic e (pool[i].t);
      vector<double> co = want[i][2];
      co.pop_back();
      check_design (co, e, pool[i].t, "compute_coefs");
    }
  vector<std::pair<int, int>> seq;
  const int n_calls = 4 + s.draw (37);
  for (int i = 0; i < n_calls; i++)
    seq.push_back ({ (int) s.draw (n_specs), (int) s.draw (6) });
  for (auto& k : seq)
    {
      c.note ("%d:%d ", k.first, k.second);
      check_same (want[k.first][k.second], evaluate (pool[k.first], k.second), pool[k.first], k.second, "in the sequence");
    }
  if (s.chance (1, 8))
    {
      const int n_threads = 2 + s.draw (3);
      c.label ("threads");
      vector<std::thread> th;
      vector<vector<vector<double>>> res (n_threads);
      for (int t = 0; t < n_threads; t++)
        th.emplace_back ([&, t] {
          for (size_t i = 0; i < seq.size(); i++)
            {
              auto& k = seq[(i + t * 3) % seq.size()];
              res[t].push_back (evaluate (pool[k.first], k.second));
            }
        });
      for (auto& t : th)
        t.join();
      for (int t = 0; t < n_threads; t++)
        for (size_t i = 0; i < seq.size(); i++)
          {
            auto& k = seq[(i + t * 3) % seq.size()];
            check_same (want[k.first][k.second], res[t][i], pool[k.first], k.second, "with other threads");
          }
    }
}
