// C19 C20: determinism and real-time safety
#include "util.hh"
#include <errno.h>
#include <pthread.h>
#include <stddef.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#ifdef __SSE__
#include <xmmintrin.h>
#endif
using std::vector;
using std::string;
using namespace pbt;

/* --- C19 --- */

static __attribute__ ((noinline)) void
dirty_stack (unsigned char fill)
{
  volatile unsigned char mem[96 * 1024];
  for (size_t i = 0; i < sizeof (mem); i++)
    mem[i] = fill;
}

PROPERTY (c19_repeat, "a history is run twice: with different contents of heap, stack, object memory and output buffers, different placement of the object (heap, stack, reused memory) and other calls in between, and has to give the same bits; non-trivial: non-zero input and at least 16 output samples")
{
  CfgFilter f;
  f.ratio1 = true;
  Setup u = gen_setup (s, c, f, SIG_NONFINITE, true);
  vector<float> y[2];
  vector<double> intro[2];
  FpEnv env (s, c);
  for (int run = 0; run < 2; run++)
    {
      // 0xff: NaN, 0x7f: huge values
      auto byte = [&] { return (unsigned char) (s.chance (1, 4) ? 0xff : s.chance (1, 4) ? 0x7f : s.draw (256)); };
      unsigned char heap = byte(), stack = byte(), outb = byte(), obj = byte();
      unsigned place = s.draw (3);
      bool others = s.chance (1, 2), err = s.chance (1, 2);
      c.note ("run %d: heap %02x stack %02x out %02x object %02x placement %u%s; ", run, heap, stack, outb, obj, place, others ? " others" : "");
      alignas (64) unsigned char on_stack[512];
      alignas (64) static unsigned char reused[512];
      if (A->object_size > sizeof (reused))
        place = 0;
      bench().fill = outb;
      alloc_fill (heap);
      dirty_stack (stack);
      const Cfg& k = u.cfg;
      if (others)
        {
          RS tmp (k);
          float in[64], out[512];
          for (int i = 0; i < 64; i++)
            in[i] = i * (run + 1) * 0.1f;
          tmp.api->process (tmp.p, in, 64, out);
          volatile float z = 0;
          volatile float inexact = 1.0f / 3, inv = z / z;  // sets exception flags
          (void) inexact; (void) inv;
          (void) rand();
        }
      if (err)
        errno = ERANGE;
      void *mem = place == 1 ? (void *) on_stack : place == 2 ? (void *) reused : nullptr;
      RS r (k);
      A->destroy (r.p);
      r.p = nullptr;
      if (mem)
        {
          if (place == 1)
            memset (mem, obj, sizeof (on_stack));
          r.p = A->create_at (mem, k.mode, k.ratio, k.prec, k.sse, k.filter);
        }
      else
        r.p = A->create (k.mode, k.ratio, k.prec, k.sse, k.filter, 5);
      size_t pos = 0;
      intro[run] = { r.delay(), (double) r.order(), (double) r.sse_enabled() };
      for (auto& b : u.p.b)
        {
          if (b.reset_before)
            r.reset();
          dirty_stack (stack);
          bench().process (r, u.x.data() + pos, b.n, b.ia, b.oa, y[run]);
          pos += b.n;
        }
      if (mem)
        {
          A->destroy_at (mem);
          r.p = nullptr;
        }
      alloc_fill (-1);
    }
  bench().fill = 0x7d;
  check_equal_bits ("repeat", u.cfg.str() + ": two runs of the same history", y[0], y[1]);
  if (intro[0] != intro[1])
    fail ("repeat-introspection", "%s: delay(), order() or sse_enabled() differ between two runs", u.cfg.str().c_str());
  c.nontrivial (any_nonzero (u.x) && y[0].size() >= 16);
}

/* --- C20 --- */

#define RT_RULE "a case is a configuration and a history of process_block(), reset(), delay(), order() and sse_enabled() calls on existing buffers"

// history on preallocated buffers, does not allocate itself
struct RtRun
{
  vector<float> in, out;
  Plan p;
  RS r;
  volatile double sink = 0;
  RtRun (const Setup& u) : in (u.x.size() + 16), p (u.p), r (u.cfg)
  {
    std::copy (u.x.begin(), u.x.end(), in.begin());
    out.resize (r.n_out (u.x.size()) + 16);
  }
  template<class Fn> void
  run (Fn check)
  {
    size_t pos = 0;
    for (auto& b : p.b)
      {
        if (b.reset_before)
          {
            r.api->reset (r.p);
            check ("reset()");
          }
        r.api->process (r.p, in.data() + pos, b.n, out.data() + b.oa);
        check ("process_block()");
        sink = r.api->delay (r.p) + r.api->order (r.p) + r.api->sse_enabled (r.p);
        check ("delay(), order(), sse_enabled()");
        pos += b.n;
      }
  }
};

PROPERTY (c20_alloc, RT_RULE "; malloc and free are counted, and floating point control words (with drawn rounding mode and denormal flags) and errno are compared after every call; non-trivial: at least one sample was processed")
{
  CfgFilter f;
  f.ratio1 = true;
  Setup u = gen_setup (s, c, f, SIG_NONFINITE, true);
  RtRun rt (u);
  unsigned want_csr = 0;
  int want_errno = s.draw (120);
#ifdef __SSE__
  const unsigned old_csr = _mm_getcsr();
  unsigned k = s.draw (16);
  want_csr = (old_csr & ~0xe07fu) | 0x1f80 | (k & 3) << 13 | (k & 4 ? 0x8000 : 0) | (k & 8 ? 0x40 : 0);
  c.note ("mxcsr %#x ", want_csr);
  _mm_setcsr (want_csr);
#endif
  unsigned short cw = 0, cw2 = 0;
  __asm__ volatile ("fnstcw %0" : "=m" (cw));
  struct Guard // the rounding mode must not leak into the comparison code
  {
    unsigned csr;
    ~Guard()
    {
#ifdef __SSE__
      _mm_setcsr (csr);
#endif
    }
  };
  AllocStats a = alloc_stats();
  const char *bad = nullptr, *what = "";
  {
#ifdef __SSE__
    Guard g { old_csr };
#endif
    errno = want_errno;
    rt.run ([&] (const char *fn) {
      if (bad)
        return;
      AllocStats b = alloc_stats();
      if (b.allocs != a.allocs || b.frees != a.frees)
        bad = fn, what = "allocated or freed memory";
      if (errno != want_errno)
        bad = fn, what = "changed errno";
#ifdef __SSE__
      if ((_mm_getcsr() & ~0x3fu) != (want_csr & ~0x3fu))
        bad = fn, what = "changed the SSE control word";
#endif
      __asm__ volatile ("fnstcw %0" : "=m" (cw2));
      if (cw != cw2)
        bad = fn, what = "changed the x87 control word";
    });
  }
  if (bad)
    fail ("realtime", "%s: %s %s", u.cfg.str().c_str(), bad, what);
  c.nontrivial (u.x.size() > 0);
}

PROPERTY (c20_syscall, RT_RULE " in a child process where every system call except for exit is fatal; non-trivial: at least one sample was processed")
{
  CfgFilter f;
  f.ratio1 = true;
  Setup u = gen_setup (s, c, f, SIG_NONFINITE, true);
  RtRun rt (u);
  fflush (stdout);
  pid_t pid = fork();
  if (pid < 0)
    {
      fprintf (stderr, "fork failed\n");
      _exit (2);
    }
  if (pid == 0)
    {
      static sock_filter prog[] = {
        BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (seccomp_data, nr)),
        BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 0, 1),
        BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS),
      };
      static sock_fprog fprog = { sizeof (prog) / sizeof (prog[0]), prog };
      signal (SIGALRM, SIG_DFL);
      if (prctl (PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || prctl (PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fprog) != 0)
        _exit (77);
      rt.run ([] (const char *) {});
      _exit (0);
    }
  int status = 0;
  while (waitpid (pid, &status, 0) < 0 && errno == EINTR)
    ;
  if (WIFEXITED (status) && WEXITSTATUS (status) == 77)
    {
      fprintf (stderr, "seccomp is not available\n");
      _exit (2);
    }
  if (WIFSIGNALED (status))
    fail ("syscall", "%s: process killed by signal %d (%s)", u.cfg.str().c_str(), WTERMSIG (status), WTERMSIG (status) == SIGSYS ? "system call" : "crash");
  c.nontrivial (u.x.size() > 0);
}

static const size_t STACK = 6 << 20;
static const size_t STACK_LIMIT = 256 << 10;

PROPERTY (c20_stack, "a case is a configuration, a small and a large block (up to 1000000 samples) processed by a thread with its own stack, of which the used part is measured for both: at most 256 KB; non-trivial: the large block has more than 100000 samples")
{
  CfgFilter f;
  f.ratio1 = true;
  Cfg cfg = gen_cfg (s, f);
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  unsigned n = 100 * unit;
  switch (s.draw (3))
    {
    case 0: n = s.draw (100) * unit; break;
    case 1: n = (100000 + s.draw (400000)) / unit * unit; break;
    case 2: n = (500000 + s.draw (500000)) / unit * unit; break;
    }
  if (cfg.up())
    n = n / cfg.ratio * 2;
  c.note ("%s block %u", cfg.str().c_str(), n);
  c.label (n > 100000 ? "large block" : "small block");
  static char *stack = nullptr;
  static vector<float> in, out;
  if (!stack)
    {
      stack = (char *) mmap (nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
      if (stack == MAP_FAILED)
        _exit (2);
      mprotect (stack, 4096, PROT_NONE);
      in.assign (1000100, 0.25f);
      out.resize (2000100);
    }
  RS r (cfg);
  if (cfg.up())
    n = std::min<size_t> (n, out.size() / cfg.ratio);
  n = std::min<size_t> (n, in.size()) / unit * unit;
  const size_t scan = 3 << 20; // 3 MB is enough to see any growth with the block length
  memset (stack + STACK - scan, 0x5a, scan);
  struct Job { RS *r; unsigned n; } job { &r, n };
  pthread_attr_t attr;
  pthread_attr_init (&attr);
  pthread_attr_setstack (&attr, stack, STACK);
  pthread_t t;
  auto fn = [] (void *p) -> void * {
    Job *j = (Job *) p;
    j->r->api->process (j->r->p, in.data(), j->n, out.data());
    j->r->api->reset (j->r->p);
    (void) j->r->api->delay (j->r->p);
    return nullptr;
  };
  if (pthread_create (&t, &attr, fn, &job) != 0)
    {
      fprintf (stderr, "pthread_create failed\n");
      _exit (2);
    }
  pthread_join (t, nullptr);
  pthread_attr_destroy (&attr);
  size_t unused = 0;
  while (unused < scan && stack[STACK - scan + unused] == 0x5a)
    unused++;
  size_t used = scan - unused;
  c.note (": %zu bytes of stack", used);
  if (used > STACK_LIMIT)
    fail ("stack", "%s: a block of %u samples needs %s%zu bytes of stack", cfg.str().c_str(), n, used == scan ? "more than " : "", used);
  c.nontrivial (n > 100000);
}

/* --- amount of work, in builds that count it --- */

#if defined (__clang__)
#define NO_COV __attribute__ ((no_sanitize ("coverage")))
#else
#define NO_COV
#endif
static volatile bool work_on = false;
static uint64_t work_count = 0;
extern "C" {
void *__real_memcpy (void *, const void *, size_t) __attribute__ ((weak));
void *__real_memmove (void *, const void *, size_t) __attribute__ ((weak));
void *__real_memset (void *, int, size_t) __attribute__ ((weak));
NO_COV void __sanitizer_cov_trace_pc() { if (work_on) work_count++; }
NO_COV void *__wrap_memcpy (void *d, const void *s, size_t n) { if (work_on) work_count += 2 + n / 4; return __real_memcpy (d, s, n); }
NO_COV void *__wrap_memmove (void *d, const void *s, size_t n) { if (work_on) work_count += 2 + n / 4; return __real_memmove (d, s, n); }
NO_COV void *__wrap_memset (void *d, int c, size_t n) { if (work_on) work_count += 2 + n / 4; return __real_memset (d, c, n); }
}
// steps for one more input sample of the resampler, with the resampler being as simple as possible (one step for each tap)
static double
work_per_sample (const Cfg& cfg)
{
  double w = 8 * std::max (1u, cfg.up() ? cfg.ratio : 1);
  for (int stage = 2; stage <= (int) cfg.ratio; stage *= 2)
    {
      double taps = (cfg.fir() ? fir_order (stage, cfg.prec) : 2 * iir_order (stage, cfg.prec)) + 16;
      w += taps * (cfg.up() ? stage / 2 : (double) stage / cfg.ratio);
    }
  return w;
}
PROPERTY (c20_work, "a case is a configuration and a history of 1..4000 calls with blocks of up to 100000 samples of any values (also denormal, huge and non-finite ones) and resets, in a build which counts the basic blocks that are executed and the words that are copied; the steps of a call are limited by 20000 and 6 times those of a simple implementation; non-trivial: at least 1000 samples were processed")
{
  CfgFilter f;
  f.ratio1 = true;
  Cfg cfg = gen_cfg (s, f);
  c.note ("%s; ", cfg.str().c_str());
  const unsigned unit = cfg.up() ? 1 : cfg.ratio;
  const size_t budget = (c.effort > 1 ? 600000 : 200000) / (cfg.up() ? cfg.ratio : 1);
  vector<float> x = gen_signal (s, c, budget / 2 / unit * unit + unit, SIG_NONFINITE), out (RS (cfg).n_out (x.size()) + 16);
  RS r (cfg);
  const double per = 6 * work_per_sample (cfg);
  const unsigned kind = s.draw (4);
  const unsigned max_calls = kind == 0 ? 1 + s.draw (4) : 1 + s.draw (4000), max_n = kind == 0 ? x.size() : kind == 1 ? 4 : kind == 2 ? 64 : 2000;
  Rng rng (s.draw (1u << 24));
  const bool resets = s.draw (2);
  c.note ("; up to %u calls with up to %u samples%s", max_calls, max_n, resets ? ", resets" : "");
  size_t total = 0, pos = 0;
  double worst = 0;
  auto begin = [&] { work_count = 0; work_on = true; };
  auto end = [&] (const char *fn, size_t n, unsigned call) {
    work_on = false;
    const double limit = 20000 + per * n;
    worst = std::max (worst, work_count / limit);
    if (work_count > limit)
      fail ("work", "%s: call %u: %s of %zu samples took %llu steps, expected at most %.0f", cfg.str().c_str(), call, fn, n, (unsigned long long) work_count, limit);
  };
  volatile double sink;
  for (unsigned call = 0; call < max_calls && total < budget; call++)
    {
      size_t n = std::min<size_t> (rng.below (max_n + 1) * unit, x.size() / unit * unit);
      if (pos + n > x.size())
        pos = rng.below (4);
      if (pos + n > x.size())
        pos = 0;
      begin();
      r.api->process (r.p, x.data() + pos, n, out.data() + rng.below (4));
      end ("process_block()", n, call);
      pos += n;
      total += n;
      if (resets && rng.below (8) == 0)
        {
          begin();
          r.api->reset (r.p);
          end ("reset()", 0, call);
        }
      if (rng.below (8) == 0)
        {
          begin();
          sink = r.api->delay (r.p) + r.api->order (r.p) + r.api->sse_enabled (r.p);
          end ("delay(), order(), sse_enabled()", 0, call);
        }
    }
  c.label (worst > 0.5 ? "more than 1/2 of the limit" : worst > 0.25 ? "1/4 to 1/2 of the limit" : worst > 0.1 ? "1/10 to 1/4 of the limit" : worst > 0 ? "less than 1/10 of the limit" : "not counted");
  c.nontrivial (total >= 1000 && worst > 0);
}
