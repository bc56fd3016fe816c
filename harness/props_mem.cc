// C04: memory accesses of process_block()
#include "util.hh"
#include <math.h>
#include <unistd.h>
#include <sys/mman.h>
using std::vector;
using std::string;
using namespace pbt;

// memory between two inaccessible pages, with a read-only and a writable view of the same pages
class Arena
{
  size_t size = 0;
  char *rw = nullptr, *ro = nullptr;
  static char *
  view (int fd, size_t size, int prot)
  {
    char *p = (char *) mmap (nullptr, size + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || mmap (p + 4096, size, prot, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
      {
        fprintf (stderr, "mmap failed\n");
        _exit (2);
      }
    return p + 4096;
  }
public:
  void
  need (size_t n_floats)
  {
    size_t n = (n_floats * 4 + 8192) / 4096 * 4096;
    if (n <= size)
      return;
    if (rw)
      {
        munmap (rw - 4096, size + 8192);
        munmap (ro - 4096, size + 8192);
      }
    int fd = memfd_create ("arena", MFD_CLOEXEC);
    if (fd < 0 || ftruncate (fd, n) != 0)
      {
        fprintf (stderr, "memfd failed\n");
        _exit (2);
      }
    rw = view (fd, n, PROT_READ | PROT_WRITE);
    ro = view (fd, n, PROT_READ);
    close (fd);
    size = n;
  }
  // place: 0: ends at the inaccessible page after, 1: starts after the inaccessible page before
  float       *write_at (size_t n, int place) { return (float *) (place ? rw : rw + size) - (place ? 0 : n); }
  const float *read_at  (size_t n, int place) { return (const float *) (place ? ro : ro + size) - (place ? 0 : n); }
};

PROPERTY (c04_guard, "a case is a configuration (all enumerated evenly, ratio 1 included), a signal of any finite or non-finite values, and a history of blocks with resets; input blocks are read-only and start or end at an inaccessible page, output blocks end or start at one; everything else around an output is checked to be unmodified and every output to be written; non-trivial: at least one non-empty block")
{
  static Arena in, out;
  CfgFilter f;
  f.ratio1 = true;
  Setup u = gen_setup (s, c, f, SIG_NONFINITE, true);
  RS r1 (u.cfg), r2 (u.cfg);
  size_t biggest = 0, pos = 0;
  for (auto& b : u.p.b)
    biggest = std::max<size_t> (biggest, b.n);
  in.need (biggest + 64);
  out.need (r1.n_out (biggest) + 64);
  bool nt = false;
  unsigned places = s.draw (16), k = 0;
  vector<float> copy;
  for (auto& b : u.p.b)
    {
      size_t no = r1.n_out (b.n);
      int pi = (places >> (k & 1)) & 1, po = (places >> (2 + (k & 1))) & 1;
      k++;
      if (b.n)
        memcpy (in.write_at (b.n, pi), u.x.data() + pos, b.n * 4);
      if (b.reset_before)
        {
          r1.reset();
          r2.reset();
        }
      const size_t border = 16;
      copy.resize (no);
      for (int run = 0; run < 2; run++)
        {
          RS& r = run ? r2 : r1;
          unsigned char fill = run ? 0x11 : 0xee;
          float *o = out.write_at (no, po), *side = po ? o + no : o - border;
          memset (side, fill, border * 4);
          memset (o, fill, no * 4);
          r.api->process (r.p, in.read_at (b.n, pi), b.n, o);
          for (size_t i = 0; i < border * 4; i++)
            if (((unsigned char *) side)[i] != fill)
              fail ("overrun", "%s: block of %u samples: memory next to the output was modified", u.cfg.str().c_str(), b.n);
          if (run == 0)
            {
              if (no)
                memcpy (copy.data(), o, no * 4);
            }
          else if (no && memcmp (copy.data(), o, no * 4) != 0)
            for (size_t i = 0; i < no; i++)
              if (memcmp (&copy[i], &o[i], 4) != 0 && !(std::isnan (copy[i]) && std::isnan (o[i])))
                fail ("unwritten", "%s: block of %u samples: output[%zu] is %g or %g, depending on the previous contents of the output", u.cfg.str().c_str(), b.n, i, copy[i], o[i]);
        }
      if (b.n && memcmp (in.read_at (b.n, pi), u.x.data() + pos, b.n * 4) != 0)
        fail ("input-modified", "%s: block of %u samples: input was modified", u.cfg.str().c_str(), b.n);
      nt |= b.n > 0;
      pos += b.n;
    }
  c.nontrivial (nt);
}

PROPERTY (c04_heap, "as above, but every block is in heap memory of its exact size at one of four float alignments, for builds with sanitizers; empty blocks are also passed as null pointers; non-trivial: at least one non-empty block")
{
  CfgFilter f;
  f.ratio1 = true;
  Setup u = gen_setup (s, c, f, SIG_NONFINITE, true);
  const bool null_empty = s.chance (1, 2);
  RS r (u.cfg);
  size_t pos = 0;
  bool nt = false;
  for (auto& b : u.p.b)
    {
      size_t no = r.n_out (b.n);
      float *in = (float *) malloc ((b.n + b.ia) * 4), *out = (float *) malloc ((no + b.oa) * 4);
      if (b.n)
        memcpy (in + b.ia, u.x.data() + pos, b.n * 4);
      if (b.reset_before)
        r.reset();
      if (b.n == 0 && null_empty)
        r.api->process (r.p, nullptr, 0, nullptr);
      else
        r.api->process (r.p, in + b.ia, b.n, out + b.oa);
      if (b.n && memcmp (in + b.ia, u.x.data() + pos, b.n * 4) != 0)
        fail ("input-modified", "%s: block of %u samples: input was modified", u.cfg.str().c_str(), b.n);
      volatile float sum = 0;
      for (size_t i = 0; i < no; i++)
        if (out[b.oa + i] > 0) // branch on every output, for the memory sanitizer
          sum = sum + 1;
      free (in);
      free (out);
      pos += b.n;
      nt |= b.n > 0;
    }
  c.nontrivial (nt);
}

PROPERTY (c04_any_length, "a case is a downsampler (all enumerated evenly) and a history in which blocks of any length, mostly not multiples of the ratio, are mixed with valid blocks and resets; input blocks are read-only and next to inaccessible pages, and nothing may be written but the first n/ratio samples of an output; in the end reset() has to give a resampler like a new one; non-trivial: at least one block that is not a multiple of the ratio")
{
  static Arena in, out;
  auto all = all_configs();
  vector<Cfg> cfgs;
  for (auto& k : all)
    if (!k.up() && k.ratio > 1)
      cfgs.push_back (k);
  Cfg cfg = cfgs[s.stratum (cfgs.size())];
  c.note ("%s: ", cfg.str().c_str());
  const unsigned max_len = 9000, border = 64;
  in.need (max_len + 64);
  out.need (max_len + 2 * border);
  RS r (cfg), fresh (cfg);
  bool nt = false;
  Rng rng (s.draw (1u << 24));
  unsigned steps = 1 + s.draw (12);
  Capture cap;
  for (unsigned k = 0; k < steps; k++)
    {
      unsigned n = gen_len (s, cfg, 8000);
      if (s.chance (3, 4))
        n += s.draw (8);
      c.note ("%u ", n);
      int pi = s.draw (2), po = s.draw (2);
      if (s.chance (1, 8))
        r.reset();
      float *w = in.write_at (n, pi);
      for (unsigned i = 0; i < n; i++)
        w[i] = rng.below (200) == 0 ? NAN : (int) rng.below (201) - 100;
      const unsigned no = n / cfg.ratio;
      float *o = out.write_at (no, po), *side = po ? o + no : o - border;
      memset (side, 0xee, border * 4);
      r.api->process (r.p, in.read_at (n, pi), n, o);
      for (unsigned i = 0; i < border * 4; i++)
        if (((unsigned char *) side)[i] != 0xee)
          {
            cap.stop();
            fail ("any-overrun", "%s: block of %u samples: memory next to the output was modified", cfg.str().c_str(), n);
          }
      nt |= n % cfg.ratio;
    }
  r.reset();
  // now both are the same
  const unsigned n = 64 * cfg.ratio;
  float *w = in.write_at (n, 0);
  for (unsigned i = 0; i < n; i++)
    w[i] = (int) rng.below (201) - 100;
  vector<float> y1 (64), y2 (64);
  r.api->process (r.p, w, n, y1.data());
  fresh.api->process (fresh.p, w, n, y2.data());
  cap.stop();
  check_equal_bits ("any-reset", cfg.str() + ": reset after blocks of any length", y1, y2);
  c.nontrivial (nt);
}

/* --- blocks of more than 2^31 samples --- */

// a large array which is the same small piece of memory again and again
struct Ring
{
  char *base;
  size_t total;
  float *data;
  Ring (size_t n_floats, size_t period)
  {
    int fd = memfd_create ("ring", MFD_CLOEXEC);
    if (fd < 0 || ftruncate (fd, period) != 0)
      {
        fprintf (stderr, "memfd failed\n");
        _exit (2);
      }
    const size_t size = (n_floats * 4 + 4095) / 4096 * 4096;
    total = size + 8192;
    base = (char *) mmap (nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED)
      {
        fprintf (stderr, "mmap failed\n");
        _exit (2);
      }
    for (size_t o = 0; o < size; o += period)
      if (mmap (base + 4096 + o, std::min (period, size - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_POPULATE, fd, 0) == MAP_FAILED)
        {
          fprintf (stderr, "mmap of a piece failed\n");
          _exit (2);
        }
    close (fd);
    data = (float *) (base + 4096 + size) - n_floats; // ends at the inaccessible page
  }
  ~Ring() { munmap (base, total); }
};

PROPERTY (c03_giant, "a case is one block of around 2^31 to 2^32 - 1 samples (input or output), in memory that repeats a smaller piece of 12 MB, next to inaccessible pages; the last 100000 samples of the output, and what is processed after it, are compared with a run in small blocks over the end of the input; all cases are non-trivial")
{
  struct Scenario { int fir, up; unsigned ratio; int size; };
  // eight groups, so that a few cases cover everything
  static const Scenario scenarios[8][2] = {
    { { 1, 1, 2, 0 }, { 1, 1, 2, 2 } }, { { 1, 1, 2, 0 }, { 1, 1, 2, 2 } }, { { 1, 0, 2, 0 }, { 1, 0, 2, 2 } }, { { 0, 1, 2, 0 }, { 0, 1, 2, 2 } },
    { { 0, 0, 2, 0 }, { 0, 0, 2, 2 } }, { { 1, 1, 4, 1 }, { 0, 1, 8, 1 } }, { { 1, 0, 4, 0 }, { 0, 0, 8, 2 } }, { { 1, 1, 1, 0 }, { 1, 1, 8, 1 } }
  };
  unsigned si = s.stratum (8);
  const Scenario& sc = scenarios[si][s.draw (2)];
  Cfg cfg;
  cfg.filter = sc.fir;
  cfg.mode = !sc.up;
  cfg.ratio = sc.ratio;
  cfg.sse = si < 2 ? 1 - si : s.draw (2);
  cfg.prec = 8;
  const size_t unit = cfg.up() ? 1 : cfg.ratio;
  size_t n;
  if (sc.size == 0)
    n = (size_t (1) << 31) + s.draw (100000);
  else if (sc.size == 1) // the output has more than 2^32 samples
    n = (size_t (1) << 32) / sc.ratio + s.draw (10000);
  else
    n = (size_t (1) << 32) - 1 - s.draw (40);
  n = n / unit * unit;
  c.note ("%s block of %zu samples", cfg.str().c_str(), n);
  c.label (fmt ("%s %s x%u", cfg.fir() ? "FIR" : "IIR", cfg.up() ? "up" : "down", cfg.ratio));
  RS r (cfg), q (cfg);
  const size_t no = r.n_out (n);
  Ring in (n, 4096 * 2999), out (no, 4096 * 3001);
  Rng rng (s.draw (1u << 20));
  for (size_t i = 0; i < 4096 / 4 * 2999; i++)
    in.data[i] = rng.sym();
  r.api->process (r.p, in.data, n, out.data);
  const size_t warm = 8192, w = 100000 / unit * unit;
  vector<float> y, tail (64 * unit, 0.5f), t1, t2;
  for (size_t pos = n - w - warm; pos < n;)
    {
      size_t b = std::min<size_t> ((100 + rng.below (900)) * unit, n - pos);
      bench().process (q, in.data + pos, b, 0, 0, y);
      pos += b;
    }
  const size_t wo = r.n_out (w);
  for (size_t i = 0; i < wo; i++)
    {
      float got = out.data[no - wo + i], want = y[y.size() - wo + i];
      if (!(fabs (got - want) <= 1e-4))
        fail ("giant-block", "%s: block of %zu samples: output[%zu] is %g, expected %g", cfg.str().c_str(), n, no - wo + i, got, want);
    }
  bench().process (r, tail.data(), tail.size(), 0, 0, t1);
  bench().process (q, tail.data(), tail.size(), 0, 0, t2);
  for (size_t i = 0; i < t1.size(); i++)
    if (!(fabs (t1[i] - t2[i]) <= 1e-4))
      fail ("giant-block-state", "%s: after a block of %zu samples, output[%zu] is %g, expected %g", cfg.str().c_str(), n, i, t1[i], t2[i]);
  c.nontrivial();
}

PROPERTY (c18_giant, "a case is one ratio 1 block of 2^29 to 2^32 - 1 samples in memory that repeats a smaller piece of 12 MB, next to inaccessible pages; the last 12 MB of the output are compared bit by bit with the input; all cases are non-trivial")
{
  static const int precs[6] = { 24, 20, 16, 12, 8, 1 };
  Cfg cfg;
  cfg.ratio = 1;
  cfg.mode = s.draw (2);
  cfg.sse = s.draw (2);
  cfg.filter = s.draw (2);
  cfg.prec = precs[s.draw (6)];
  const unsigned kind = s.stratum (4);
  const size_t n = kind == 3 ? (size_t (1) << 32) - 1 - s.draw (40) : (size_t (1) << (29 + kind)) + s.draw (100000);
  c.note ("%s block of %zu samples", cfg.str().c_str(), n);
  c.label (fmt ("2^%u samples", 29 + kind));
  RS r (cfg);
  const size_t in_period = 4096 * 2999, out_period = 4096 * 3001;
  Ring in (n, in_period), out (n, out_period);
  Rng rng (s.draw (1u << 20));
  for (size_t i = 0; i < in_period / 8; i++)
    {
      uint64_t v = rng.next();
      memcpy (in.data + 2 * i, &v, 8);
    }
  r.api->process (r.p, in.data, n, out.data);
  for (size_t i = n - out_period / 4; i < n; i++)
    if (memcmp (in.data + i, out.data + i, 4) != 0)
      fail ("giant-identity", "%s: block of %zu samples: output[%zu] is %g, input is %g", cfg.str().c_str(), n, i, out.data[i], in.data[i]);
  c.nontrivial();
}
