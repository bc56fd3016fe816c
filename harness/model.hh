// Reference model of the resampler: double precision, written from the specification (design.py), plus a
// rigorous bound of the error which any float implementation of the same filters may have.
#pragma once
#include <vector>
#include <string>
#include <stdint.h>

struct Cfg
{
  int mode = 0;          // 0 up, 1 down
  unsigned ratio = 2;
  int prec = 8;
  int sse = 1;
  int filter = 1;        // 0 IIR, 1 FIR
  bool up() const { return mode == 0; }
  bool fir() const { return filter == 1; }
  std::string str() const;
};

std::vector<Cfg> all_configs (bool with_ratio1 = false);  // every supported configuration
unsigned fir_order (int stage, int prec);
unsigned iir_order (int stage, int prec);
double   iir_group_delay (int stage, int prec);
double   model_delay (const Cfg& cfg);
unsigned model_order (const Cfg& cfg);

struct RefOut { std::vector<double> y, e; };   // values and error bounds

RefOut model_run (const Cfg& cfg, const std::vector<float>& x);
// with other coefficients (FIR: at most 64 per stage): coefs[0] for the factor 2 stage, coefs[1] for factor 4, coefs[2] for factor 8
RefOut model_run_coefs (const Cfg& cfg, const std::vector<float>& x, const std::vector<double> coefs[3]);
double iir_ref_coef (int stage, int prec, int i);
double fir_ref_coef (int stage, int prec, int i);

double model_gain_bound (const Cfg& cfg);      // upper bound for max|y| / max|x|
size_t model_memory (const Cfg& cfg);          // FIR: number of base rate samples after which the input is forgotten

// generic half-band filters, also used for the hiir kernels
struct AllpassBound { double k_in; std::vector<double> k_sec; double rho; };
AllpassBound allpass_bound (const std::vector<double>& coefs, double u);
void allpass_path (const std::vector<double>& coefs, const std::vector<double>& x, const std::vector<double>& ex,
                   std::vector<double>& y, std::vector<double>& ey, double u);
