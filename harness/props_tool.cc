// C24: the output of the filter design tool (mkiir), built from the working tree
#include "util.hh"
#include <unistd.h>
#include <limits.h>
#include <stdlib.h>
#include <math.h>
using std::vector;
using std::string;
using namespace pbt;

namespace {
struct Printed { int stage = 0, bits = 0, declared = 0; vector<double> c; double gdelay = 0; bool selected = false; };
std::map<std::pair<int, int>, Printed> printed; // by stage and bits
string parse_error;

void
load()
{
  char exe[PATH_MAX + 20];
  ssize_t n = readlink ("/proc/self/exe", exe, PATH_MAX);
  exe[n > 0 ? n : 0] = 0;
  string cmd = string (exe) + ".mkiir";
  if (access (cmd.c_str(), X_OK) != 0)
    { fprintf (stderr, "no %s\n", cmd.c_str()); exit (2); }
  FILE *p = popen (cmd.c_str(), "r");
  char line[1000];
  Printed *cur = nullptr;
  int sel_stage = 0, sel_db = 0;
  while (p && fgets (line, sizeof (line), p))
    {
      int a, b, d;
      double v;
      char tail;
      if (sscanf (line, " constexpr std::array<double,%d> coeffs%d_%d = {", &d, &a, &b) == 3)
        {
          if (printed.count ({ a, b }))
            parse_error = fmt ("coefficients %d_%d printed twice", a, b);
          cur = &printed[{ a, b }];
          cur->stage = a;
          cur->bits = b;
          cur->declared = d;
        }
      else if (strstr (line, "};"))
        cur = nullptr;
      else if (sscanf (line, " if (stage_ratio == %d && precision_ == PREC_%dDB%c", &a, &b, &tail) == 3 && tail == ')')
        {
          sel_stage = a;
          sel_db = b;
        }
      else if (sscanf (line, " return create_impl_iir_with_coeffs (coeffs%d_%d, %lf)", &a, &b, &v) == 3)
        {
          if (a != sel_stage || b * 6 != sel_db || !printed.count ({ a, b }))
            parse_error = fmt ("selection of coefficients %d_%d for stage %d, %d dB", a, b, sel_stage, sel_db);
          else
            {
              printed[{ a, b }].gdelay = v;
              printed[{ a, b }].selected = true;
            }
        }
      else if (cur && sscanf (line, " %lf,", &v) == 1)
        cur->c.push_back (v);
    }
  if (!p || pclose (p) != 0)
    parse_error = "mkiir failed";
}
void
check_tables()
{
  if (parse_error.size())
    fail ("tool output", "%s", parse_error.c_str());
  for (int stage : { 2, 4, 8 })
    for (int bits : { 8, 12, 16, 20, 24 })
      {
        if (!printed.count ({ stage, bits }))
          fail ("tool output", "no filter for stage %d, %d bits", stage, bits);
        auto& t = printed[{ stage, bits }];
        if (t.declared != (int) t.c.size() || t.c.size() != iir_order (stage, bits))
          fail ("number of coefficients", "stage %d, %d bits: %d declared, %zu printed, %u in the library", stage, bits, t.declared, t.c.size(), iir_order (stage, bits));
        if (!t.selected)
          fail ("tool output", "no selection for stage %d, %d bits", stage, bits);
        for (size_t i = 0; i < t.c.size(); i++)
          {
            double ref = iir_ref_coef (stage, bits, i);
            if (!(fabs (t.c[i] - ref) <= 1e-10 + fabs (ref) * 0x1p-24))
              fail ("coefficient", "stage %d, %d bits: coefficient %zu is %.17g, library has %.17g", stage, bits, i, t.c[i], ref);
          }
        if (!(fabs (t.gdelay - iir_group_delay (stage, bits)) <= 2e-6))
          fail ("group delay", "stage %d, %d bits: %.9g printed, %.9g in the library", stage, bits, t.gdelay, iir_group_delay (stage, bits));
      }
  if (printed.size() != 15)
    fail ("tool output", "%zu filters", printed.size());
}
struct Init { Init() { load(); } } init;
}

PROPERTY (c24_response, "a case is an IIR configuration (all enumerated evenly), a signal and a block history with resets; the output of the resampler is compared with the cascade of the filters which mkiir prints, delay() with the delays it prints, and all 15 printed tables with the reference; non-trivial: non-zero input and at least 16 output samples")
{
  check_tables();
  CfgFilter f;
  f.fir = false;
  Setup u = gen_setup (s, c, f, SIG_FINITE, false);
  vector<double> co[3];
  double delay = 0;
  for (unsigned st = 2; st <= u.cfg.ratio; st *= 2)
    {
      auto& t = printed[{ (int) st, u.cfg.prec }];
      for (double v : t.c)
        co[st / 4].push_back ((float) v);
      delay = u.cfg.up() ? 2 * delay + t.gdelay : delay + (t.gdelay - 1) / 2 / (st / 2);
    }
  RS r (u.cfg);
  vector<float> y = bench().run (r, u.x, u.p);
  check_against ("response", u.cfg, y, model_run_coefs (u.cfg, u.x, co));
  if (!(fabs (r.delay() - delay) <= 5e-6))
    fail ("delay", "%s: delay() %.9g, printed group delays give %.9g", u.cfg.str().c_str(), r.delay(), delay);
  c.nontrivial (any_nonzero (u.x) && y.size() >= 16);
}
