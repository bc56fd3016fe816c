// C23: the up- and downsampler kernels of hiir with any number of coefficients
#include "pandaresampler/hiir/Upsampler2xFpu.h"
#include "pandaresampler/hiir/Upsampler2xFpuTpl.h"
#include "pandaresampler/hiir/Upsampler2xFpuTpl.hpp"
#include "pandaresampler/hiir/Downsampler2xFpu.h"
#include "pandaresampler/hiir/Downsampler2xFpuTpl.h"
#include "pandaresampler/hiir/Downsampler2xFpuTpl.hpp"
#include "pandaresampler/hiir/Upsampler2xSse.h"
#include "pandaresampler/hiir/Upsampler2xSse.hpp"
#include "pandaresampler/hiir/Downsampler2xSse.h"
#include "pandaresampler/hiir/Downsampler2xSse.hpp"
#include "pbt.hh"
#include "model.hh"
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <limits>
#include <new>
#include <utility>
#include <algorithm>
#include <type_traits>
#include <memory>
using std::vector;
using std::string;
using namespace pbt;
using namespace PandaResampler::hiir;

template<class T>
struct Kernel // type erased kernel
{
  virtual ~Kernel() {}
  virtual void set_coefs (const double *c) = 0;
  virtual void sample (const T *in, T *out, T *high) = 0;      // high: split if not null
  virtual void block (const T *in, T *out, T *high, long n) = 0;
  virtual void clear() = 0;
  virtual Kernel *copy (int how) = 0;
};
template<class T, class K, bool UP>
struct KernelImpl : Kernel<T>
{
  alignas (64) unsigned char mem[sizeof (K)];
  K *k;
  explicit KernelImpl (int fill)
  {
    static_assert (alignof (K) <= 64, "alignment");
    memset (mem, fill, sizeof (mem));
    k = new (mem) K();
  }
  KernelImpl (KernelImpl& o, int how)
  {
    memset (mem, 0x5a, sizeof (mem));
    if (how == 0)
      k = new (mem) K (*o.k);
    else if (how == 1)
      k = new (mem) K (std::move (*o.k));
    else
      {
        k = new (mem) K();
        if (how == 2)
          *k = *o.k;
        else
          *k = std::move (*o.k);
      }
  }
  ~KernelImpl() override { k->~K(); }
  void set_coefs (const double *c) override { k->set_coefs (c); }
  void sample (const T *in, T *out, T *high) override
  {
    if constexpr (UP)
      k->process_sample (out[0], out[1], in[0]);
    else if (high)
      k->process_sample_split (*out, *high, in);
    else
      *out = k->process_sample (in);
  }
  void block (const T *in, T *out, T *high, long n) override
  {
    if constexpr (UP)
      k->process_block (out, in, n);
    else if (high)
      k->process_block_split (out, high, in, n);
    else
      k->process_block (out, in, n);
  }
  void clear() override { k->clear_buffers(); }
  Kernel<T> *copy (int how) override { return new KernelImpl (*this, how); }
};
template<class T, int TYPE, int NC> // TYPE: 0 FPU, 1 SSE
Kernel<T> *
make_kernel (bool up, int fill)
{
  if constexpr (TYPE == 0)
    {
      if (up)
        return new KernelImpl<T, Upsampler2xFpuTpl<NC, T>, true> (fill);
      return new KernelImpl<T, Downsampler2xFpuTpl<NC, T>, false> (fill);
    }
  else
    {
      if (up)
        return new KernelImpl<T, Upsampler2xSse<NC>, true> (fill);
      return new KernelImpl<T, Downsampler2xSse<NC>, false> (fill);
    }
}
template<class T, int TYPE>
Kernel<T> *
new_kernel (int nc, bool up, int fill)
{
  switch (nc)
    {
#define K(N) case N: return make_kernel<T, TYPE, N> (up, fill);
      K (1) K (2) K (3) K (4) K (5) K (6) K (7) K (8) K (9) K (10) K (11) K (12) K (13) K (14) K (15) K (16) K (17) K (18) K (20) K (25) K (32) K (33)
#undef K
    }
  return nullptr;
}
static const vector<int> all_nc = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 25, 32, 33 };
static_assert (std::is_same<Upsampler2xFpu<3>, Upsampler2xFpuTpl<3, float>>::value && std::is_same<Downsampler2xFpu<3>, Downsampler2xFpuTpl<3, float>>::value, "float kernels");
static_assert (Upsampler2xSse<5>::NBR_COEFS == 5 && Downsampler2xSse<5>::NBR_COEFS == 5 && Upsampler2xFpu<5>::NBR_COEFS == 5 && Downsampler2xFpu<5>::NBR_COEFS == 5, "number of coefficients");

template<class T>
static void
run_case (Src& s, Ctx& c, int type, bool up, int nc)
{
  const double u = sizeof (T) == 4 ? 0x1p-24 : 0x1p-52; // the reference is in double as well
  // coefficients
  vector<double> co (nc);
  switch (s.weighted ({ 3, 3, 1 }))
    {
      case 0: // ascending, as designed
        for (int i = 0; i < nc; i++)
          co[i] = (i + 0.05 + 0.9 * s.unit()) / (nc + 0.1);
        break;
      case 1:
        for (auto& x : co)
          x = 0.002 + 0.985 * s.unit();
        break;
      default:
        for (auto& x : co)
          x = s.draw (2) ? 0.99 : 0.0009765625 * (1 + s.draw (8));
    }
  std::unique_ptr<Kernel<T>> k;
  int fill = s.draw (2) ? 0x7d : 0xff;
  if constexpr (sizeof (T) == 4)
    k.reset (type == 1 ? new_kernel<float, 1> (nc, up, fill) : new_kernel<float, 0> (nc, up, fill));
  else
    k.reset (new_kernel<double, 0> (nc, up, fill));
  k->set_coefs (co.data());
  for (auto& x : co)
    x = (T) x;
  c.note ("%s %s %d coefficients", type == 1 ? "SSE" : sizeof (T) == 4 ? "FPU float" : "FPU double", up ? "up" : "down", nc);

  // history: operations on a stream, cut into segments by clear_buffers()
  vector<double> in[2], lo[2], hi;    // up: in[0]; down: in[0] = odd (second) sample, in[1]; lo: up: even/odd outputs, down: lo[0]
  vector<char> has_hi;
  size_t dirty = SIZE_MAX;            // first non-finite input of the segment
  bool any = false;
  double level = pow (2, s.range (-30, 30) * (s.draw (3) == 0));
  Rng rng (s.draw (1u << 20));
  int sig = s.draw (5);
  auto gen = [&] () -> T {
    double v;
    switch (sig)
      {
        case 0:  v = rng.sym(); break;
        case 1:  v = rng.below (12) == 0 ? rng.sym() : 0; break;
        case 2:  v = rng.below (2) ? 1 : -1; break;
        case 3:  v = ldexp (rng.sym(), -(int) rng.below (30)); break;
        default: v = 1;
      }
    return (T) (v * level);
  };
  vector<double> c0, c1;
  for (int i = 0; i < nc; i++)
    (i & 1 ? c1 : c0).push_back (co[i]);
  auto finish_segment = [&] {
    size_t N = std::min (in[0].size(), dirty);
    vector<double> x0 (in[0].begin(), in[0].begin() + N), x1 = x0, ex (N, 0.0), y0, y1, e0, e1;
    if (!up)
      x1.assign (in[1].begin(), in[1].begin() + N);
    allpass_path (c0, x0, ex, y0, e0, u);
    allpass_path (c1, x1, ex, y1, e1, u);
    for (size_t i = 0; i < N; i++)
      {
        auto cmp = [&] (const char *what, double got, double ref, double err) {
          if (!(fabs (got - ref) <= err))
            fail (what, "%s %s, %d coefficients: sample %zu since the start or clear_buffers() is %.17g, all-pass filters give %.17g +- %g", type == 1 ? "SSE" : sizeof (T) == 4 ? "FPU float" : "FPU double", up ? "up" : "down", nc, i, got, ref, err);
        };
        if (up)
          {
            cmp ("first output", lo[0][i], y0[i], e0[i]);
            cmp ("second output", lo[1][i], y1[i], e1[i]);
          }
        else
          {
            double e = 0.5 * (e0[i] + e1[i]) + 4 * u * (fabs (y0[i]) + fabs (y1[i])) + 1e-34;
            cmp ("low band", lo[0][i], 0.5 * (y0[i] + y1[i]), e);
            if (has_hi[i])
              cmp ("high band", hi[i], 0.5 * (y0[i] - y1[i]), 2 * e);
          }
      }
    for (auto *v : { &in[0], &in[1], &lo[0], &lo[1], &hi })
      v->clear();
    has_hi.clear();
    dirty = SIZE_MAX;
  };
  int n_ops = 1 + s.draw (8);
  for (int o = 0; o < n_ops; o++)
    {
      unsigned op = s.weighted ({ 4, 3, up ? 0u : 3u, up ? 0u : 3u, 1, 1 });
      if (op == 4)
        {
          finish_segment();
          k->clear();
          c.label ("clear_buffers");
          c.note ("; clear");
          continue;
        }
      if (op == 5)
        {
          int how = s.draw (4);
          Kernel<T> *k2 = k->copy (how);
          if (how == 0 || how == 2)
            { // the original goes its own way: must not influence the copy
              T tmp_in[2] = { 1, -1 }, tmp_out[2];
              k->sample (tmp_in, tmp_out, nullptr);
            }
          k.reset (k2);
          c.label ("copy or move");
          c.note ("; copy %d", how);
          continue;
        }
      long n;
      switch (s.weighted ({ 4, 3, 1 }))
        {
          case 0:  n = 1 + s.draw (9); break;
          case 1:  n = 1 + s.draw (70); break;
          default: n = 1 + s.draw (600);
        }
      bool split = op >= 2, blockwise = op == 0 || op == 2;
      const size_t w = up ? 1 : 2;
      vector<T> x (n * w);
      for (auto& v : x)
        v = gen();
      if (s.chance (1, 12))
        {
          size_t at = s.draw (n);
          x[at * w] = s.draw (2) ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::infinity();
          dirty = std::min (dirty, in[0].size() + at);
          c.label ("non-finite input before clear_buffers");
        }
      const size_t n_in = n * w, n_out = up ? 2 * n : n;
      // placement: canaries around the outputs, input kept for comparison
      vector<T> arena, high;
      T canary = (T) 12345.678;
      T *pin, *pout, *ph = nullptr;
      int overlap = s.weighted ({ 2, 1, 1 });
      size_t shift = s.draw (5);
      const size_t G = 8;
      if (blockwise && overlap == 1 && !up)
        { // out_ptr <= in_ptr: in place or a little before
          arena.assign (G + shift + n_in + G, canary);
          pout = &arena[G];
          pin = pout + shift;
          c.label ("overlapping blocks");
        }
      else if (blockwise && overlap == 1 && up)
        { // in_ptr >= out_ptr + nbr_spl: the input is the second half of the output (or later)
          size_t from = std::min<size_t> (n + shift, 2 * n);
          arena.assign (G + from + std::max<size_t> (n, 2 * n - from) + G, canary);
          pout = &arena[G];
          pin = pout + from;
          c.label ("overlapping blocks");
        }
      else if (overlap == 2)
        { // adjacent: the output directly follows the input
          arena.assign (G + n_in + n_out + G, canary);
          pin = &arena[G];
          pout = pin + n_in;
        }
      else
        {
          arena.assign (G + shift + n_in + G + n_out + G, canary);
          pin = &arena[G + shift];
          pout = pin + n_in + G;
        }
      std::copy (x.begin(), x.end(), pin);
      if (split)
        {
          high.assign (G + n + G, canary);
          ph = &high[G];
        }
      vector<T> before = arena;
      if (blockwise)
        k->block (pin, pout, ph, n);
      else
        for (long i = 0; i < n; i++)
          k->sample (pin + i * w, pout + i * (up ? 2 : 1), ph ? ph + i : nullptr);
      for (size_t i = 0; i < arena.size(); i++)
        {
          bool is_out = &arena[i] >= pout && &arena[i] < pout + n_out;
          if (!is_out && memcmp (&arena[i], &before[i], sizeof (T)))
            fail ("memory outside the output modified", "%s %d coefficients, block of %ld: element %zd relative to the output", up ? "up" : "down", nc, n, (ptrdiff_t) (&arena[i] - pout));
        }
      if (split)
        for (size_t i = 0; i < high.size(); i++)
          if ((i < G || i >= G + n) && high[i] != canary)
            fail ("memory outside the output modified", "high band output");
      for (long i = 0; i < n; i++)
        {
          if (up)
            {
              in[0].push_back (x[i]);
              lo[0].push_back (pout[2 * i]);
              lo[1].push_back (pout[2 * i + 1]);
              any |= x[i] != 0;
            }
          else
            {
              in[0].push_back (x[2 * i + 1]);
              in[1].push_back (x[2 * i]);
              lo[0].push_back (pout[i]);
              hi.push_back (split ? ph[i] : 0);
              has_hi.push_back (split);
              any |= x[2 * i] != 0 || x[2 * i + 1] != 0;
            }
        }
      c.note ("; %s%s %ld%s", blockwise ? "block" : "samples", split ? " split" : "", n, blockwise && overlap == 1 ? " overlapping" : "");
      c.label (string (blockwise ? "block" : "samples") + (split ? " split" : ""));
    }
  finish_segment();
  c.nontrivial (any && n_ops > 1);
}

PROPERTY (c23_kernels, "a case is a kernel (FPU float, FPU double, SSE; up, down; 1..18, 20, 25, 32 and 33 coefficients), coefficients in (0, 1), and a sequence of 1..8 operations on one stream: blocks, single samples, split blocks, split samples, overlapping and adjacent buffers, clear_buffers() (also after non-finite input), copies and moves; non-trivial: non-zero input and at least two operations")
{
  unsigned which = s.stratum (6 * all_nc.size());
  int nc = all_nc[which / 6], type = which % 3;
  bool up = which / 3 % 2;
  c.label (string (type == 0 ? "FPU float" : type == 1 ? "SSE" : "FPU double") + (up ? " up" : " down"));
  if (type == 2)
    run_case<double> (s, c, 0, up, nc);
  else
    run_case<float> (s, c, type, up, nc);
}

// one kernel running for long: errors must not accumulate
PROPERTY (c23_long, "a case is a kernel as in c23_kernels with a stream of 20000..200000 samples in blocks, whose last part is compared with the reference of the whole stream; non-trivial: always")
{
  unsigned which = s.stratum (4 * all_nc.size());
  int nc = all_nc[which / 4], type = which % 2;
  bool up = which / 2 % 2;
  vector<double> co (nc);
  for (int i = 0; i < nc; i++)
    co[i] = (i + 0.05 + 0.9 * s.unit()) / (nc + 0.1);
  std::unique_ptr<Kernel<float>> k (type ? new_kernel<float, 1> (nc, up, 0x7d) : new_kernel<float, 0> (nc, up, 0x7d));
  k->set_coefs (co.data());
  for (auto& x : co)
    x = (float) x;
  size_t n = 20000 + s.draw (c.effort > 1 ? 180000 : 40000);
  Rng rng (s.draw (1u << 20));
  int sig = s.draw (3);
  vector<float> x (n * (up ? 1 : 2)), y (n * (up ? 2 : 1));
  for (size_t i = 0; i < x.size(); i++)
    x[i] = sig == 0 ? rng.sym() : sig == 1 ? 0.3f + 0.7f * (rng.below (1000) == 0) : sin (i * 0.01);
  if (sig == 1) // signal, then silence: nothing may remain but a decaying tail
    std::fill (x.begin() + x.size() / 2, x.end(), 0.0f);
  c.note ("%s %s %d coefficients, %zu samples, signal %d", type ? "SSE" : "FPU", up ? "up" : "down", nc, n, sig);
  c.nontrivial();
  for (size_t p = 0; p < n;)
    {
      size_t b = std::min<size_t> (1 + rng.below (1000), n - p);
      k->block (&x[p * (up ? 1 : 2)], &y[p * (up ? 2 : 1)], nullptr, b);
      p += b;
    }
  vector<double> c0, c1, x0 (n), x1 (n), ex (n, 0.0), y0, y1, e0, e1;
  for (int i = 0; i < nc; i++)
    (i & 1 ? c1 : c0).push_back (co[i]);
  for (size_t i = 0; i < n; i++)
    {
      x0[i] = up ? x[i] : x[2 * i + 1];
      x1[i] = up ? x[i] : x[2 * i];
    }
  allpass_path (c0, x0, ex, y0, e0, 0x1p-24);
  allpass_path (c1, x1, ex, y1, e1, 0x1p-24);
  for (size_t i = 0; i < n; i++)
    {
      double r = up ? y0[i] : 0.5 * (y0[i] + y1[i]), e = up ? e0[i] : 0.5 * (e0[i] + e1[i]) + 0x1p-22 * (fabs (y0[i]) + fabs (y1[i])) + 1e-34;
      double got = up ? y[2 * i] : y[i];
      if (!(fabs (got - r) <= e) || (up && !(fabs (y[2 * i + 1] - y1[i]) <= e1[i])))
        fail ("long stream", "%s %s, %d coefficients: sample %zu is %.9g, reference %.9g +- %g", type ? "SSE" : "FPU", up ? "up" : "down", nc, i, got, r, e);
    }
}
