// C23: the sections of the hiir kernels, which have a phaser mode that the resampler does not use. This uses
// interfaces below those of the kernels; the check goes on without it if they have changed.
#include "pandaresampler/hiir/StageDataFpu.h"
#include "pandaresampler/hiir/StageDataSse.h"
#include "pandaresampler/hiir/StageProcFpu.h"
#include "pandaresampler/hiir/StageProcSseV2.h"
#include "pbt.hh"
#include "model.hh"
#include <math.h>
#include <memory>
#include <vector>
#include <xmmintrin.h>
using std::vector;
using namespace pbt;
using namespace PandaResampler::hiir;

// the sections themselves, in normal and in pi/2 phaser mode: (a - z^-2) / (1 - a z^-2) is the normal section for a
// signal whose pairs of samples alternate in sign
template<class T>
struct Sections
{
  virtual ~Sections() {}
  virtual int paths() const = 0;
  virtual void set (int path, int i, double coef) = 0;
  virtual void run (bool neg, T *x) = 0;       // one sample of each path, in place
  virtual void silence() = 0;
};
template<class T, int NC>
struct FpuSections final : Sections<T>
{
  StageDataFpu<T> d[NC + 2];
  int paths() const override { return 2; }
  void set (int path, int i, double coef) override { d[2 * i + path + 2]._coef = (T) coef; }
  void run (bool neg, T *x) override
  {
    if (neg)
      StageProcFpu<NC, T>::process_sample_neg (NC, x[0], x[1], d);
    else
      StageProcFpu<NC, T>::process_sample_pos (NC, x[0], x[1], d);
  }
  void silence() override
  {
    for (auto& s : d)
      s._mem = 0;
  }
};
template<int N>
struct SseSections final : Sections<float>
{
  StageDataSse d[N + 1];
  int paths() const override { return 4; }
  void set (int path, int i, double coef) override { d[i + 1]._coef[path] = (float) coef; }
  void run (bool neg, float *x) override
  {
    __m128 v = _mm_loadu_ps (x);
    if (neg)
      StageProcSseV2<N>::process_sample_neg (v, d);
    else
      StageProcSseV2<N>::process_sample_pos (v, d);
    _mm_storeu_ps (x, v);
  }
  void silence() override
  {
    for (auto& s : d)
      for (int i = 0; i < 4; i++)
        s._mem[i] = 0;
  }
};
template<class T, bool SSE>
static Sections<T> *
new_sections (int n)
{
  switch (n)
    {
#define K(N) case N: if constexpr (SSE) return new SseSections<N>(); else return new FpuSections<T, N>();
      K (1) K (2) K (3) K (4) K (5) K (6) K (7) K (8) K (9) K (12) K (17) K (24) K (33)
#undef K
    }
  return nullptr;
}
template<class T, bool SSE>
static void
run_sections (Src& s, Ctx& c, int n)
{
  std::unique_ptr<Sections<T>> k (new_sections<T, SSE> (n));
  k->silence();
  const int np = k->paths();
  vector<vector<double>> co (np);
  for (int p = 0; p < np; p++)
    for (int i = 0; i < (SSE ? n : (n + 1 - p) / 2); i++)
      {
        T v = (T) (0.002 + 0.985 * s.unit());
        co[p].push_back (v);
      }
  for (int p = 0; p < np; p++)
    for (size_t i = 0; i < co[p].size(); i++)
      k->set (p, i, co[p][i]);
  const int n_seg = 1 + s.draw (3);
  bool any = false;
  for (int seg = 0; seg < n_seg; seg++)
    {
      bool neg = s.draw (2);
      size_t len = 1 + (s.draw (3) ? s.draw (40) : s.draw (400));
      Rng rng (s.draw (1u << 20));
      int sig = s.draw (3);
      vector<vector<double>> in (np, vector<double> (len)), out = in;
      for (size_t i = 0; i < len; i++)
        {
          T x[4];
          for (int p = 0; p < np; p++)
            {
              x[p] = sig == 0 ? rng.sym() : sig == 1 ? (rng.below (10) ? 0.0 : rng.sym()) : ldexp (rng.sym(), -(int) rng.below (20));
              in[p][i] = x[p];
              any |= x[p] != 0;
            }
          k->run (neg, x);
          for (int p = 0; p < np; p++)
            out[p][i] = x[p];
        }
      c.note ("; %s %zu samples", neg ? "phaser" : "normal", len);
      c.label (neg ? "phaser" : "normal");
      for (int p = 0; p < np; p++)
        {
          auto flip = [&] (vector<double>& v) {
            for (size_t i = 1; i < v.size(); i += 2)
              v[i] = -v[i];
          };
          vector<double> ex (len, 0.0), y, e;
          if (neg)
            flip (in[p]);
          allpass_path (co[p], in[p], ex, y, e, sizeof (T) == 4 ? 0x1p-24 : 0x1p-52);
          if (neg)
            flip (y);
          for (size_t i = 0; i < len; i++)
            if (!(fabs (out[p][i] - y[i]) <= e[i]))
              fail (neg ? "phaser sections" : "normal sections", "%s with %d sections: path %d, sample %zu since silence is %.17g, %s sections give %.17g +- %g", SSE ? "SSE" : sizeof (T) == 4 ? "FPU float" : "FPU double", n, p, i, out[p][i], neg ? "phaser" : "normal", y[i], e[i]);
        }
      k->silence();
    }
  c.nontrivial (any);
}
PROPERTY (c23_stages, "a case is a row of sections (StageProcFpu<N, float>, StageProcFpu<N, double> or StageProcSseV2<N>, N = 1..33) with coefficients in (0, 1), and 1..3 signals of 1..400 samples which go through process_sample_pos() or process_sample_neg() (phaser mode); non-trivial: non-zero input")
{
  static const int ns[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 24, 33 };
  unsigned which = s.stratum (39);
  int n = ns[which / 3];
  c.note ("%s %d sections", which % 3 == 0 ? "FPU float" : which % 3 == 1 ? "FPU double" : "SSE", n);
  switch (which % 3)
    {
      case 0:  run_sections<float, false> (s, c, n); break;
      case 1:  run_sections<double, false> (s, c, n); break;
      default: run_sections<float, true> (s, c, n);
    }
}
