// C27: failing allocations and throwing constructors
#include "util.hh"
#include "pandaresampler.hh"
#include <memory>
#include <new>
using std::vector;
using std::string;
using namespace pbt;
using PandaResampler::AlignedArray;

namespace {
// runs fn with every single one of its allocations failing in turn, until it succeeds; returns the number of allocations
template<class Fn> long
each_allocation (const string& what, bool want_throw, Fn fn)
{
  for (long k = 1; k < 3000; k++)
    {
      AllocStats a = alloc_stats(), b;
      bool thrown = false, other = false;
      alloc_fail_at (k);
      try
        {
          fn();
        }
      catch (const std::bad_alloc&)
        {
          thrown = true;
        }
      catch (...)
        {
          other = true;
        }
      bool failed = alloc_failed();
      alloc_fail_at (0);
      b = alloc_stats();
      if (other)
        fail ("oom-exception", "%s: allocation %ld failed: exception is not std::bad_alloc", what.c_str(), k);
      if (!failed)
        {
          if (thrown)
            fail ("oom-exception", "%s: std::bad_alloc although no allocation failed", what.c_str());
          return k - 1;
        }
      if (!thrown && want_throw)
        fail ("oom-ignored", "%s: allocation %ld failed, but no exception was thrown", what.c_str(), k);
      if (thrown && (b.allocs - a.allocs != b.frees - a.frees || b.bytes != a.bytes))
        fail ("oom-leak", "%s: allocation %ld failed, %ld blocks (%ld bytes) were not freed", what.c_str(), k, (b.allocs - a.allocs) - (b.frees - a.frees), b.bytes - a.bytes);
      if (!thrown)
        return k - 1;
    }
  fail ("oom-endless", "%s: too many allocations", what.c_str());
}
}

PROPERTY (c27_resampler, "a case is a drawn configuration, two resamplers in use, and up to 12 operations (process, reset, construction of another resampler in given memory or on the heap, assignment of a new resampler, self-test), where construction, assignment and self-test are attempted with each of their allocations failing in turn; failures have to give std::bad_alloc, free everything, and leave the resamplers in use (and the target of the assignment) unaffected, bit for bit; non-trivial: at least 3 allocations were made to fail and the resamplers processed samples")
{
  CfgFilter f;
  f.ratio1 = true;
  Cfg cfg = gen_cfg (s, f);
  auto all = all_configs (true);
  c.note ("%s; ", cfg.str().c_str());
  c.label (fmt ("%s x%u", cfg.fir() ? "FIR" : "IIR", cfg.ratio));
  Cfg cfg2 = all[s.draw (all.size())];
  struct User { Cfg cfg; std::unique_ptr<RS> r, twin; vector<float> y, y2; } users[2];
  for (int i = 0; i < 2; i++)
    {
      users[i].cfg = i ? cfg2 : cfg;
      users[i].r.reset (new RS (users[i].cfg));
      users[i].twin.reset (new RS (users[i].cfg)); // sees only the successful operations
    }
  long faults = 0, samples = 0;
  unsigned n_ops = 2 + s.draw (11);
  for (unsigned op = 0; op < n_ops; op++)
    {
      User& u = users[s.draw (2)];
      Cfg k = s.chance (1, 2) ? cfg : all[s.draw (all.size())];
      switch (s.weighted ({ 4, 1, 2, 2, 2, 1, 1 }))
        {
        case 0:
          {
            unsigned n = gen_len (s, u.cfg, 600);
            vector<float> x (n);
            Rng rng (s.draw (1u << 30));
            for (float& v : x)
              v = rng.sym();
            c.note ("process %u; ", n);
            bench().process (*u.r, x.data(), n, 0, 0, u.y);
            bench().process (*u.twin, x.data(), n, 0, 0, u.y2);
            samples += n;
          }
          break;
        case 1:
          c.note ("reset; ");
          u.r->reset();
          u.twin->reset();
          break;
        case 2:
          {
            alignas (64) unsigned char mem[512];
            if (A->object_size > sizeof (mem))
              break;
            c.note ("construct %s; ", k.str().c_str());
            c.label ("construction");
            faults += each_allocation ("construction of " + k.str(), true, [&] {
              A->create_at (mem, k.mode, k.ratio, k.prec, k.sse, k.filter);
              A->destroy_at (mem);
            });
          }
          break;
        case 3:
          {
            int n_args = k.fir() ? k.sse ? 3 + s.draw (3) : 4 + s.draw (2) : 5;
            c.note ("new %s (%d arguments); ", k.str().c_str(), n_args);
            c.label ("construction on the heap");
            faults += each_allocation ("new " + k.str(), true, [&] { A->destroy (A->create (k.mode, k.ratio, k.prec, k.sse, k.filter, n_args)); });
          }
          break;
        case 4: // r = Resampler2 (...): in the end it succeeds
          {
            c.note ("assign %s; ", k.str().c_str());
            c.label ("assignment");
            faults += each_allocation ("assignment of a new " + k.str(), true, [&] {
              void *t = A->create (k.mode, k.ratio, k.prec, k.sse, k.filter, 5);
              A->move_assign (u.r->p, t);
              A->destroy (t);
            });
            u.r->cfg = u.cfg = k;
            u.twin.reset (new RS (k));
          }
          break;
        case 5:
          {
            c.note ("self-test; ");
            c.label ("self-test");
            bool ok = true;
            long k1 = 1 + s.draw (200); // one of about 320 allocations
            AllocStats a = alloc_stats(), b;
            bool thrown = false;
            {
              Capture cap;
              a = alloc_stats();
              alloc_fail_at (k1);
              try { ok = A->test_filter_impl (false); }
              catch (const std::bad_alloc&) { thrown = true; }
              faults += alloc_failed();
              if (alloc_failed() && !thrown)
                ok = false;
              alloc_fail_at (0);
              b = alloc_stats();
            }
            if (!ok)
              fail ("oom-selftest", "self-test with failing allocation %ld: wrong result or no exception", k1);
            if (b.allocs - a.allocs != b.frees - a.frees)
              fail ("oom-leak", "self-test with failing allocation %ld: memory was not freed", k1);
          }
          break;
        case 6: // moving needs no memory, except for the new object itself
          {
            c.note ("move; ");
            void *q = nullptr;
            faults += each_allocation ("move construction of " + u.cfg.str(), true, [&] { q = A->move_new (u.r->p); });
            A->destroy (u.r->p);
            u.r->p = q;
          }
          break;
        }
      if (u.r->delay() != u.twin->delay() || u.r->order() != u.twin->order() || u.r->sse_enabled() != u.twin->sse_enabled())
        fail ("oom-state", "%s: introspection differs from an undisturbed resampler", u.cfg.str().c_str());
    }
  for (auto& u : users)
    {
      vector<float> x (240 * 8);
      for (size_t i = 0; i < x.size(); i++)
        x[i] = (int) (i * 7 % 32) - 16;
      bench().process (*u.r, x.data(), x.size(), 0, 0, u.y);
      bench().process (*u.twin, x.data(), x.size(), 0, 0, u.y2);
      check_equal_bits ("oom-state", u.cfg.str() + ": resampler with failed operations around it and undisturbed one", u.y, u.y2);
    }
  c.nontrivial (faults >= 3 && samples > 0);
}

namespace {
struct Thrown { int n; };
// an element whose constructors throw at a drawn point; every object is counted
struct Bomb
{
  static long live, countdown;
  static string error;
  int v;
  void tick() { if (countdown > 0 && --countdown == 0) throw Thrown { 7 }; }
  Bomb() : v (0) { tick(); live++; }
  explicit Bomb (int i) : v (i) { tick(); live++; }
  Bomb (const Bomb& o) : v (o.v) { tick(); live++; }
  Bomb& operator= (const Bomb& o) { tick(); v = o.v; return *this; }
  ~Bomb()
  {
    if (v == -12345)
      error = "destroyed twice or never constructed";
    v = -12345;
    live--;
  }
};
long Bomb::live, Bomb::countdown;
string Bomb::error;
}

PROPERTY (c27_array, "a case is a program of up to 20 operations on AlignedArrays (construction, from a vector, copy, assignment of copies and temporaries) of elements whose constructors or assignments throw at a drawn point, or with a drawn allocation failing, or with more elements than memory can hold; the exception has to arrive, all constructed elements have to be destroyed and all memory freed, and failed assignments leave the target unchanged; non-trivial: at least one operation failed")
{
  Bomb::live = 0;
  Bomb::countdown = 0;
  Bomb::error.clear();
  typedef AlignedArray<Bomb> Array;
  struct Slot { std::unique_ptr<Array> a; vector<int> model; };
  Slot slots[3];
  unsigned n_ops = 1 + s.draw (20);
  bool nt = false;
  long expect_live = 0;
  for (unsigned op = 0; op < n_ops; op++)
    {
      Slot& t = slots[s.draw (3)];
      Slot& o = slots[s.draw (3)];
      size_t n = s.chance (1, 4) ? s.draw (300) : s.draw (12);
      unsigned kind = s.draw (alloc_hook_active() ? 6 : 5); // operator new of the sanitizer aborts instead of throwing
      if ((kind == 2 || kind == 3) && !o.a)
        kind = 0;
      if ((kind == 3 || kind == 4) && !t.a)
        kind = 1;
      unsigned fault = s.draw (3); // 0: none, 1: element, 2: allocation
      if (!alloc_hook_active() && fault == 2)
        fault = 1;
      long at = 1 + s.draw (s.chance (1, 2) ? 4 : 2 * n + 4);
      static const char *names[] = { "construct", "from vector", "copy", "assign", "assign temporary", "too large" };
      c.note ("%s(%zu) fault %u at %ld; ", names[kind], n, fault, at);
      c.label (string (names[kind]) + (fault == 0 ? "" : fault == 1 ? ", element throws" : ", allocation fails"));
      long vec_live = Bomb::live;
      vector<Bomb> v;
      if (kind == 1)
        {
          v.reserve (n);
          for (size_t i = 0; i < n; i++)
            v.emplace_back ((int) i + 5);
        }
      vec_live = Bomb::live - vec_live;
      vector<int> next;
      if (kind == 1)
        for (auto& b : v)
          next.push_back (b.v);
      else if (kind == 2 || kind == 3)
        next = o.model;
      else
        next.assign (n, 0);
      std::unique_ptr<Array> fresh;
      AllocStats a = alloc_stats();
      bool bomb = false, oom = false;
      if (fault == 1)
        Bomb::countdown = at;
      if (fault == 2)
        alloc_fail_at (at);
      try
        {
          switch (kind)
            {
            case 0: fresh.reset (new Array (n)); break;
            case 1: fresh.reset (new Array (v)); break;
            case 2: fresh.reset (new Array (*o.a)); break;
            case 3: *t.a = *o.a; break;
            case 4: *t.a = Array (n); break;
            case 5:
              {
                // sizes whose number of bytes wraps around, or is just not available
                static const size_t huge[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 4, SIZE_MAX / 4 + 1, SIZE_MAX / 4 + 20, SIZE_MAX / 8 };
                fresh.reset (new Array (huge[n % 8]));
              }
              break;
            }
        }
      catch (const Thrown&) { bomb = true; }
      catch (const std::bad_alloc&) { oom = true; }
      bool fired = fault == 1 ? Bomb::countdown == 0 : fault == 2 ? alloc_failed() : false;
      Bomb::countdown = 0;
      alloc_fail_at (0);
      AllocStats b = alloc_stats();
      if (Bomb::error.size())
        fail ("array-elements", "%s: element %s", names[kind], Bomb::error.c_str());
      if (kind == 5)
        {
          if (!oom)
            fail ("array-too-large", "array of far too many elements: no std::bad_alloc");
        }
      else if (fired != (bomb || oom) || (fault == 1 ? oom : bomb))
        fail ("array-exception", "%s of %zu elements: %s, but %s", names[kind], next.size(), fired ? fault == 1 ? "an element threw" : "an allocation failed" : "nothing failed", bomb ? "the element's exception arrived" : oom ? "std::bad_alloc was thrown" : "no exception arrived");
      if (bomb || oom)
        {
          nt = true;
          if (Bomb::live != expect_live + vec_live)
            fail ("array-elements", "%s of %zu elements failed: %ld elements were not destroyed", names[kind], next.size(), Bomb::live - expect_live - vec_live);
          // exception objects may be allocated with malloc; everything is freed again
          if (alloc_hook_active() && (b.allocs - a.allocs != b.frees - a.frees))
            fail ("array-leak", "%s of %zu elements failed: %ld blocks were not freed", names[kind], next.size(), (b.allocs - a.allocs) - (b.frees - a.frees));
        }
      else
        {
          if (fresh)
            t.a = std::move (fresh);
          expect_live += (long) next.size() - (long) t.model.size();
          t.model = next;
          if (Bomb::live != expect_live + vec_live)
            fail ("array-elements", "%s of %zu elements: %ld elements live, expected %ld", names[kind], next.size(), Bomb::live, expect_live + vec_live);
        }
      v.clear();
      for (auto& sl : slots)
        if (sl.a)
          {
            if (sl.a->size() != sl.model.size())
              fail ("array-state", "after %s: size() is %zu, expected %zu", names[kind], sl.a->size(), sl.model.size());
            for (size_t i = 0; i < sl.model.size(); i++)
              if ((*sl.a)[i].v != sl.model[i])
                fail ("array-state", "after %s: element %zu is %d, expected %d", names[kind], i, (*sl.a)[i].v, sl.model[i]);
          }
    }
  for (auto& sl : slots)
    sl.a.reset();
  if (Bomb::live != 0)
    fail ("array-elements", "%ld elements are left", Bomb::live);
  c.nontrivial (nt);
}
