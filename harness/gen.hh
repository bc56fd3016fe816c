// Generators of configurations, signals and call histories, and the code that runs a history on a resampler.
#pragma once
#include "pbt.hh"
#include "api.h"
#include "model.hh"
#include <string>
#include <vector>
#include <memory>

using pbt::Src;
using pbt::Ctx;
using pbt::Rng;

extern const RsApi *A; // the build under test

struct CfgFilter { bool fir = true, iir = true, ratio1 = false; };
Cfg gen_cfg (Src& s, CfgFilter f = CfgFilter());

enum : unsigned { SIG_FINITE = 0, SIG_NONFINITE = 1, SIG_MODERATE = 2 };
// MODERATE: amplitudes within 2^-20 .. 2^20 and no denormals, except for exact zeros
std::vector<float> gen_signal (Src& s, Ctx& c, size_t n, unsigned flags = SIG_FINITE);

struct Blk { unsigned n; unsigned char ia, oa; bool reset_before; };
struct Plan { std::vector<Blk> b; };

unsigned gen_len (Src& s, const Cfg& cfg, unsigned max_in);      // number of input samples of one block
size_t   gen_total (Src& s, Ctx& c, const Cfg& cfg);             // length of a stream in input samples
Plan     gen_plan (Src& s, Ctx& c, const Cfg& cfg, size_t total_in, bool resets);
std::string plan_str (const Plan& p);

class RS // a resampler of one build
{
public:
  const RsApi *api;
  Cfg cfg;
  void *p;
  RS (const Cfg& c, const RsApi *a = nullptr) : api (a ? a : A), cfg (c)
  {
    p = api->create (c.mode, c.ratio, c.prec, c.sse, c.filter, 5);
  }
  ~RS() { if (p) api->destroy (p); }
  RS (const RS&) = delete;
  RS& operator= (const RS&) = delete;
  size_t n_out (size_t n) const { return cfg.up() ? n * cfg.ratio : n / cfg.ratio; }
  double delay() const { return api->delay (p); }
  unsigned order() const { return api->order (p); }
  bool sse_enabled() const { return api->sse_enabled (p); }
  void reset() { api->reset (p); }
};

// processes one block through buffers at the given alignments; appends the output
class Bench
{
  struct Buf { float *mem = nullptr; size_t cap = 0; };
  Buf in, out;
  float *get (Buf& b, size_t n);
public:
  ~Bench();
  bool check_surroundings = true;
  unsigned mxcsr = 0x1f80;                     // floating point environment during process()
  unsigned char fill = 0x7d;
  void process (RS& r, const float *x, unsigned n, unsigned ia, unsigned oa, std::vector<float>& y);
  std::vector<float> run (RS& r, const std::vector<float>& x, const Plan& p);
};
Bench& bench();

// draws the floating point environment for the calls: mostly the default, else flush to zero, denormals are zero and
// other rounding modes, as a host application may have set them; returns the factor for rounding error bounds
class FpEnv
{
public:
  FpEnv (Src& s, Ctx& c)
  {
    static const unsigned modes[] = { 0x1f80, 0x9fc0, 0x3f80, 0x5f80, 0x7f80, 0xffc0 };
    static const char *const names[] = { "", "flush to zero", "round down", "round up", "round to zero", "flush to zero, round to zero" };
    unsigned k = s.weighted ({ 24, 3, 1, 1, 1, 1 });
    bench().mxcsr = modes[k];
    factor = (modes[k] & 0x6000) ? 2.02 : 1;
    if (k)
      {
        c.note ("%s; ", names[k]);
        c.label (names[k]);
      }
  }
  ~FpEnv() { bench().mxcsr = 0x1f80; }
  double factor;
};

// reference for a whole plan: a reset starts a new stream
RefOut model_plan (const Cfg& cfg, const std::vector<float>& x, const Plan& p);

void check_against (const char *kind, const Cfg& cfg, const std::vector<float>& y, const RefOut& ref, double factor = 1);
void check_equal_bits (const char *kind, const std::string& what, const std::vector<float>& a, const std::vector<float>& b);
void check_close (const char *kind, const std::string& what, const std::vector<float>& a, const std::vector<float>& b, const std::vector<double>& tol, double factor);

void label_common (Ctx& c, const Cfg& cfg, const Plan& p, size_t total);
bool any_nonzero (const std::vector<float>& x);
