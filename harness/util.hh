// helpers shared by the property files
#pragma once
#include "gen.hh"
#include "alloc_hook.hh"
#include <string.h>
#include <math.h>
#include <algorithm>

inline double
peak (const std::vector<float>& x)
{
  double m = 0;
  for (float v : x)
    m = std::max (m, fabs ((double) v));
  return m;
}
// a set up of a case: configuration, stream and partition
struct Setup
{
  Cfg cfg;
  std::vector<float> x;
  Plan p;
};
inline Setup
gen_setup (Src& s, Ctx& c, CfgFilter f, unsigned sig_flags, bool resets)
{
  Setup u;
  u.cfg = gen_cfg (s, f);
  c.note ("%s; ", u.cfg.str().c_str());
  size_t n = gen_total (s, c, u.cfg);
  u.x = gen_signal (s, c, n, sig_flags);
  u.p = gen_plan (s, c, u.cfg, n, resets);
  label_common (c, u.cfg, u.p, n);
  return u;
}

// captures what is written to stdout and stderr (by file descriptor)
class Capture
{
  int save[2], mem[2];
public:
  Capture();
  ~Capture();
  void stop();
  std::string text[2]; // stdout, stderr
private:
  bool active = true;
};
inline int
count_diag (const std::string& s)
{
  int n = 0;
  for (size_t p = 0; (p = s.find ("PANDA_RESAMPLER_CHECK FAILED", p)) != std::string::npos; p++)
    n++;
  return n;
}
