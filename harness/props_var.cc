// C11: differently built copies of the library, loaded from shared objects listed in variants.txt next to the executable
#include "util.hh"
#include <dlfcn.h>
#include <unistd.h>
#include <limits.h>
#include <stdlib.h>
#include <math.h>
using std::vector;
using std::string;
using namespace pbt;

namespace {
struct Variant
{
  string name, simd, group, path; // simd: sse, neon or none; group: same compiler and flags, so bit-identical results
  const RsApi *api;
};
vector<Variant>
load()
{
  char exe[PATH_MAX + 20];
  ssize_t n = readlink ("/proc/self/exe", exe, PATH_MAX);
  if (n <= 0)
    { fprintf (stderr, "cannot read /proc/self/exe\n"); exit (2); }
  exe[n] = 0;
  string list = string (exe) + ".txt";
  FILE *f = fopen (list.c_str(), "r");
  if (!f)
    { fprintf (stderr, "cannot read %s\n", list.c_str()); exit (2); }
  vector<Variant> r;
  char name[200], simd[20], group[100], path[PATH_MAX], fn[100];
  while (fscanf (f, "%199s %19s %99s %99s %4000s", name, simd, group, fn, path) == 5)
    {
      if (string (simd) == "broken")
        {
          r.push_back ({ name, simd, group, path, nullptr });
          continue;
        }
      void *h = dlopen (path, RTLD_NOW | RTLD_LOCAL);
      void *sym = h ? dlsym (h, fn) : nullptr;
      if (!sym)
        { fprintf (stderr, "cannot load %s: %s\n", path, dlerror()); exit (2); }
      r.push_back ({ name, simd, group, path, ((const RsApi *(*) ()) sym) () });
    }
  fclose (f);
  if (r.size() < 2)
    { fprintf (stderr, "no variants in %s\n", list.c_str()); exit (2); }
  return r;
}
const vector<Variant>&
variants()
{
  static vector<Variant> v = load();
  return v;
}
void
check_builds()
{
  for (auto& v : variants())
    if (!v.api)
      {
        char text[3000];
        FILE *f = fopen (v.path.c_str(), "r");
        size_t n = f ? fread (text, 1, sizeof (text) - 1, f) : 0;
        text[n] = 0;
        if (f)
          fclose (f);
        fail ("does not build", "the library (and a program using it) does not compile in build variant %s: %s", v.name.c_str(), text);
      }
}
void
check_introspection (const Variant& v, const Cfg& cfg, const RS& base, const RS& r)
{
  if (base.delay() != r.delay() || base.order() != r.order())
    fail ("introspection", "%s, %s: delay %.17g order %u, reference build has %.17g, %u", v.name.c_str(), cfg.str().c_str(), r.delay(), r.order(), base.delay(), base.order());
  bool want = cfg.sse && cfg.ratio > 1 && (v.simd == "sse" || (v.simd == "neon" && cfg.fir()));
  if (cfg.ratio > 1 && r.sse_enabled() != want)
    fail ("sse_enabled", "%s, %s: sse_enabled() is %d", v.name.c_str(), cfg.str().c_str(), r.sse_enabled());
}
}

PROPERTY (c11_variants, "a case is a configuration (all enumerated evenly), a stream and a block history with resets, processed by the reference build and by every build variant (compiler, language standard, optimization, instruction set, assertions, library or header-only mode, several translation units); outputs have to agree within twice the rounding bound, and in every bit between library and header-only builds with the same compiler and flags; non-trivial: non-zero input and at least 16 output samples")
{
  check_builds();
  CfgFilter f;
  f.ratio1 = true;
  Setup u = gen_setup (s, c, f, SIG_FINITE, true);
  RS base (u.cfg);
  vector<float> y = bench().run (base, u.x, u.p);
  vector<double> tol (y.size(), 0.0);
  if (u.cfg.ratio > 1)
    tol = model_plan (u.cfg, u.x, u.p).e;
  std::map<string, std::pair<string, vector<float>>> groups;
  for (auto& v : variants())
    {
      RS r (u.cfg, v.api);
      vector<float> z = bench().run (r, u.x, u.p);
      check_close ("build variant", v.name + " and reference build, " + u.cfg.str(), z, y, tol, 2);
      check_introspection (v, u.cfg, base, r);
      auto& g = groups[v.group];
      if (g.first.empty())
        g = { v.name, z };
      else
        check_equal_bits ("library and header-only mode", g.first + " and " + v.name + ", " + u.cfg.str(), g.second, z);
    }
  c.nontrivial (any_nonzero (u.x) && y.size() >= 16);
}

PROPERTY (c11_interface, "a case is a number of bits, a precision value, a constructor call with any arguments (also unsupported ones), a block length and a query sequence, on every build variant; return values and the number of diagnostics have to agree with the reference build; non-trivial: always")
{
  check_builds();
  static const int levels[] = { 24, 20, 16, 12, 8, 1 };
  unsigned bits = s.draw (3) ? s.draw (34) : s.draw (0x100000000ull);
  int name_of = s.draw (40);
  int mode = s.draw (2), filter = s.draw (2), sse = s.draw (2), prec = s.chance (1, 4) ? s.draw (32) : levels[s.draw (6)];
  unsigned ratio = s.chance (1, 4) ? s.draw (33) : 1u << s.draw (4);
  int n_args = filter == 1 ? sse ? 3 + s.draw (3) : 4 + s.draw (2) : 5;
  unsigned odd = s.draw (2) ? 1 + 2 * s.draw (40) : 0;
  bool level = false;
  for (int l : levels)
    level |= l == prec;
  bool ok = ratio == 1 || ((ratio == 2 || ratio == 4 || ratio == 8) && level && (filter == 1 || prec != 1));
  c.note ("bits %u, name of %d, mode %d ratio %u precision %d sse %d filter %d, %d arguments, odd block %u", bits, name_of, mode, ratio, prec, sse, filter, n_args, odd);
  c.nontrivial();
  c.label (ok ? "supported configuration" : "unsupported configuration");
  struct Res { int find, diag, selftest; string name, out; double delay; unsigned order; vector<float> y; };
  auto observe = [&] (const RsApi *a) {
    Res r {};
    r.find = a->find_precision (bits);
    r.name = a->precision_name (name_of);
    Capture cap;
    void *p = a->create (mode, ratio, prec, sse, filter, n_args);
    if (ok)
      {
        r.delay = a->delay (p);
        r.order = a->order (p);
        if (odd && mode == 1 && ratio == 2 && filter == 1) // rejected with a diagnostic
          {
            vector<float> x (odd + 4, 0.5f);
            r.y.assign (odd + 4, 7.0f);
            a->process (p, x.data(), odd, r.y.data());
          }
      }
    a->destroy (p);
    r.selftest = s.case_index % 64 == 0 ? a->test_filter_impl (0) : 1;
    cap.stop();
    r.out = cap.text[0];
    r.diag = count_diag (cap.text[1]);
    return r;
  };
  Res base = observe (A);
  for (auto& v : variants())
    {
      Res r = observe (v.api);
      const char *n = v.name.c_str();
      if (r.find != base.find)
        fail ("find_precision_for_bits", "%s: find_precision_for_bits (%u) is %d, reference build %d", n, bits, r.find, base.find);
      if (r.name != base.name)
        fail ("precision_name", "%s: name of %d is '%s', reference build '%s'", n, name_of, r.name.c_str(), base.name.c_str());
      if ((r.diag > 0) != (base.diag > 0) || r.out != base.out)
        fail ("diagnostics", "%s: %d diagnostics, reference build %d", n, r.diag, base.diag);
      if (r.delay != base.delay || r.order != base.order)
        fail ("introspection", "%s: delay %.17g order %u, reference build %.17g, %u", n, r.delay, r.order, base.delay, base.order);
      if (r.y != base.y)
        fail ("odd block", "%s: output of an odd block differs", n);
      if (!r.selftest)
        fail ("self-test", "%s: test_filter_impl() failed", n);
      if (!!v.api->sse_available() != (v.simd != "none"))
        fail ("sse_available", "%s: sse_available() is %d", n, v.api->sse_available());
    }
}
