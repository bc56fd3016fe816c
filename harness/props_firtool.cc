// C26: the section which filter-design/mkfir.sh generates, compiled into a recorder
// (run.py runs the script of the working tree and writes mkfir_status.h and mkfir_section.h)
#include "util.hh"
#include <math.h>
#include "mkfir_status.h"
using std::vector;
using std::string;
using namespace pbt;

namespace {
struct Found { int kind; unsigned declared, order; vector<double> c; double scaling; };
typedef unsigned int uint;
struct Recorder
{
  enum Mode { UP, DOWN };
  enum { PREC_LINEAR = 1, PREC_48DB = 8, PREC_72DB = 12, PREC_96DB = 16, PREC_120DB = 20, PREC_144DB = 24 };
  Mode mode_;
  int precision_;
  template<uint ORDER, bool USE_SSE> struct Upsampler2 { enum { kind = 0, order = ORDER }; };
  template<uint ORDER, bool USE_SSE> struct Downsampler2 { enum { kind = 1, order = ORDER }; };
  template<class Filter> Found *
  create_impl_with_coeffs (const double *d, uint order, double scaling)
  {
    return new Found { Filter::kind, Filter::order, order, vector<double> (d, d + order), scaling };
  }
  template<bool USE_SSE> Found *
  create_impl (uint stage_ratio)
  {
#include "mkfir_section.h"
    return nullptr;
  }
};
std::map<std::pair<int, int>, vector<double>> found[2];
string error = MKFIR_STATUS;

void
load()
{
  for (int mode = 0; mode < 2 && error.empty(); mode++)
    for (int stage : { 2, 4, 8 })
      for (int bits : { 8, 12, 16, 20, 24 })
        {
          Recorder r { mode ? Recorder::DOWN : Recorder::UP, bits };
          std::unique_ptr<Found> f (r.create_impl<true> (stage));
          string what = fmt ("stage %d, %d bits, %s", stage, bits, mode ? "down" : "up");
          if (!f)
            { error = "no filter for " + what; return; }
          if (f->kind != mode)
            { error = "wrong kind of filter for " + what; return; }
          if (f->declared != f->order || f->order != fir_order (stage, bits))
            { error = fmt ("%s: %u coefficients, order %u, the library has %u", what.c_str(), f->order, f->declared, fir_order (stage, bits)); return; }
          for (double& v : f->c)
            v *= f->scaling / (mode ? 1 : 2);
          for (size_t i = 0; i < f->c.size(); i++)
            {
              double ref = fir_ref_coef (stage, bits, i);
              if (!(fabs (f->c[i] - ref) <= 1e-13 + fabs (ref) * 1e-9))
                { error = fmt ("%s: coefficient %zu is %.17g, the library has %.17g", what.c_str(), i, f->c[i], ref); return; }
            }
          found[mode][{ stage, bits }] = f->c;
        }
}
struct Init { Init() { if (error.empty()) load(); } } init;
}

PROPERTY (c26_response, "a case is a FIR configuration with 8 to 24 bits (all enumerated evenly), a signal and a block history with resets; the section of the library which mkfir.sh generates is compiled and has to select filters of the right kind, number and values for all modes, stages and precisions, and the output of the resampler is compared with the cascade of these filters; non-trivial: non-zero input and at least 16 output samples")
{
  if (error.size())
    fail ("script output", "%s", error.c_str());
  CfgFilter f;
  f.iir = false;
  Setup u = gen_setup (s, c, f, SIG_FINITE, false);
  if (u.cfg.prec == 1)
    return;
  vector<double> co[3];
  for (unsigned st = 2; st <= u.cfg.ratio; st *= 2)
    for (double v : found[!u.cfg.up()][{ (int) st, u.cfg.prec }])
      co[st / 4].push_back (u.cfg.up() ? (float) (2 * v) / 2. : (float) v);
  RS r (u.cfg);
  vector<float> y = bench().run (r, u.x, u.p);
  check_against ("response", u.cfg, y, model_run_coefs (u.cfg, u.x, co));
  c.nontrivial (any_nonzero (u.x) && y.size() >= 16);
}
