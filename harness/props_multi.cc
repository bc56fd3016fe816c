// C10: many instances, moves, threads
#include "util.hh"
#include <thread>
#include <atomic>
#include <stdlib.h>
using std::vector;
using std::string;
using namespace pbt;

namespace {
struct Op { bool reset; unsigned n; unsigned char ia, oa; };
struct Stream // what was done to one logical resampler
{
  Cfg cfg;
  uint64_t seed;
  vector<Op> ops;
  vector<float> y;
  size_t fed = 0;
};
}
static float
sample (uint64_t seed, size_t i)
{
  uint64_t v = mix64 (seed + i * 0x9e3779b97f4a7c15ull);
  return ((v >> 11) * 0x1p-53 * 2 - 1) * ((v & 7) ? 1 : 0);
}
static void
feed (Stream& st, RS& r, Bench& b, const Op& op)
{
  if (op.reset)
    {
      r.reset();
      return;
    }
  vector<float> x (op.n);
  for (float& v : x)
    v = sample (st.seed, st.fed++);
  b.process (r, x.data(), op.n, op.ia, op.oa, st.y);
}
static vector<float>
alone (const Stream& st)
{
  Stream again = st;
  again.y.clear();
  again.fed = 0;
  RS r (st.cfg);
  for (auto& op : st.ops)
    feed (again, r, bench(), op);
  return again.y;
}

PROPERTY (c10_instances, "a case is a sequence of up to 150 operations on up to 6 instances of drawn configurations: process, reset, move construction, move assignment, swap (also with itself), destruction, re-creation, copying (if the class allows it), queries and self-tests in between; the stream of every instance is compared bit for bit with the same calls made on a new object alone, and (with malloc counters) everything allocated has to be freed; non-trivial: at least two streams with output and at least one move, swap or re-creation")
{
  const unsigned slots = 1 + s.draw (6);
  vector<Stream> streams;
  vector<RS *> objs (slots, nullptr);     // objects
  vector<int> owner (slots, -1);          // slot -> stream, -1: moved from or destroyed
  const unsigned n_ops = 4 + s.draw (c.fuzzing() ? 40 : 150);
  long live = 0, live_bytes = 0;
  auto counted = [&] (auto fn) {
    AllocStats a = alloc_stats();
    fn();
    AllocStats b = alloc_stats();
    live += (b.allocs - a.allocs) - (b.frees - a.frees);
    live_bytes += b.bytes - a.bytes;
  };
  auto new_stream = [&] () {
    Stream st;
    static const vector<Cfg> all = all_configs (true);
    st.cfg = all[s.draw (all.size())]; // not gen_cfg(), which gives the same configuration within a case
    st.seed = s.draw (1u << 30);
    streams.push_back (st);
    return (int) streams.size() - 1;
  };
  auto create = [&] (unsigned i) {
    owner[i] = new_stream();
    const Cfg& cfg = streams[owner[i]].cfg;
    if (objs[i] && s.chance (1, 2)) // assign a temporary to the existing object
      {
        c.note ("%u=R(%s) ", i, cfg.str().c_str());
        counted ([&] {
          void *t = A->create (cfg.mode, cfg.ratio, cfg.prec, cfg.sse, cfg.filter, 5);
          A->move_assign (objs[i]->p, t);
          A->destroy (t);
        });
        objs[i]->cfg = cfg;
      }
    else
      {
        c.note ("new %u:%s ", i, cfg.str().c_str());
        if (objs[i])
          {
            counted ([&] { A->destroy (objs[i]->p); });
            objs[i]->p = nullptr;
            delete objs[i];
          }
        void *p = nullptr;
        counted ([&] { p = A->create (cfg.mode, cfg.ratio, cfg.prec, cfg.sse, cfg.filter, 5); });
        objs[i] = new RS (cfg, A);
        A->destroy (objs[i]->p);
        objs[i]->p = p;
      }
  };
  bool moved = false;
  for (unsigned k = 0; k < n_ops; k++)
    {
      unsigned i = s.draw (slots);
      if (owner[i] < 0)
        {
          create (i);
          continue;
        }
      Stream& st = streams[owner[i]];
      switch (s.weighted ({ 12, 2, 2, 2, 2, 1, 1, 1, 1 }))
        {
        case 0:
          {
            Op op { false, gen_len (s, st.cfg, 400), (unsigned char) s.draw (4), (unsigned char) s.draw (4) };
            c.note ("%u:%u ", i, op.n);
            st.ops.push_back (op);
            objs[i]->cfg = st.cfg;
            feed (st, *objs[i], bench(), op);
          }
          break;
        case 1:
          {
            Op op { true, 0, 0, 0 };
            c.note ("%u:reset ", i);
            st.ops.push_back (op);
            feed (st, *objs[i], bench(), op);
          }
          break;
        case 2: // move construction, the old object is destroyed or stays for later use
          {
            double d = objs[i]->delay();
            unsigned o = objs[i]->order();
            void *q = nullptr;
            counted ([&] { q = A->move_new (objs[i]->p); });
            unsigned j = s.draw (slots);
            if (j != i && owner[j] < 0 && objs[j])
              {
                // keep the moved-from object in slot j, which had one to be destroyed
                c.note ("move %u (old to %u) ", i, j);
                counted ([&] { A->destroy (objs[j]->p); });
                objs[j]->p = objs[i]->p;
              }
            else
              {
                c.note ("move %u ", i);
                counted ([&] { A->destroy (objs[i]->p); });
              }
            objs[i]->p = q;
            moved = true;
            if (objs[i]->delay() != d || objs[i]->order() != o)
              fail ("move-introspection", "%s: delay() or order() changed by a move", st.cfg.str().c_str());
          }
          break;
        case 3: // move assignment
          {
            unsigned j = s.draw (slots);
            if (j == i || !objs[j])
              break;
            c.note ("%u=move(%u) ", j, i);
            counted ([&] { A->move_assign (objs[j]->p, objs[i]->p); });
            owner[j] = owner[i];
            objs[j]->cfg = st.cfg;
            owner[i] = -1;
            moved = true;
          }
          break;
        case 4: // swap, possibly with a moved-from object
          {
            unsigned j = s.draw (slots);
            if (!objs[j])
              break;
            c.note ("swap(%u,%u) ", i, j);
            counted ([&] { A->swap (objs[i]->p, objs[j]->p); });
            std::swap (owner[i], owner[j]);
            std::swap (objs[i]->cfg, objs[j]->cfg);
            moved = true;
          }
          break;
        case 5:
          create (i);
          moved = true;
          break;
        case 6:
          (void) objs[i]->delay();
          (void) objs[i]->order();
          if (objs[i]->sse_enabled() && (!st.cfg.sse || st.cfg.ratio == 1))
            fail ("move-introspection", "%s: sse_enabled()", st.cfg.str().c_str());
          break;
        case 7:
          c.note ("selftest ");
          if (k < 60 && !A->test_filter_impl (false))
            fail ("selftest", "test_filter_impl() failed");
          break;
        case 8: // copies, if the class allows them, have to be independent objects in the same state
          {
            unsigned j = s.draw (slots);
            if (j == i || !objs[j])
              break;
            bool done = false;
            if (s.chance (1, 2))
              counted ([&] { done = A->copy_assign (objs[j]->p, objs[i]->p); });
            else
              counted ([&] {
                if (void *q = A->copy_new (objs[i]->p))
                  {
                    A->destroy (objs[j]->p);
                    objs[j]->p = q;
                    done = true;
                  }
              });
            if (!done)
              break;
            c.note ("copy %u to %u ", i, j);
            Stream again = st;
            streams.push_back (again);
            owner[j] = streams.size() - 1;
            objs[j]->cfg = again.cfg;
            moved = true;
          }
          break;
        }
    }
  for (unsigned i = 0; i < slots; i++)
    if (objs[i])
      {
        counted ([&] { A->destroy (objs[i]->p); });
        objs[i]->p = nullptr;
        delete objs[i];
      }
  if (alloc_hook_active() && (live != 0 || live_bytes != 0))
    fail ("leak", "%ld blocks (%ld bytes) are left after destruction of all instances", live, live_bytes);
  int with_output = 0;
  for (auto& st : streams)
    {
      with_output += st.y.size() > 0;
      check_equal_bits ("instances", st.cfg.str() + ": stream among other instances and alone", st.y, alone (st));
    }
  c.label (fmt ("%u slots", slots));
  c.nontrivial (with_output >= 2 && moved);
}

PROPERTY (c10_threads, "a case is 2..8 (one in 20: up to 64) threads, started together, each of which constructs, uses, resets, moves and destroys 1..4 instances of drawn configurations; the last call and the destruction may happen in the main thread; every stream is compared bit for bit with the same calls made without other threads; non-trivial: at least two threads produced output")
{
  const unsigned n_threads = s.chance (1, 20) ? 2 + s.draw (63) : 2 + s.draw (7);
  auto all = all_configs (true);
  vector<vector<Stream>> work (n_threads);
  bool same = s.chance (1, 2);
  unsigned common = s.draw (all.size());
  for (auto& w : work)
    {
      unsigned n = 1 + s.draw (n_threads > 8 ? 1 : 4);
      for (unsigned i = 0; i < n; i++)
        {
          Stream st;
          st.cfg = all[same ? common : s.draw (all.size())];
          st.seed = s.draw (1u << 30);
          unsigned k = 1 + s.draw (6);
          while (k--)
            st.ops.push_back ({ s.chance (1, 8), gen_len (s, st.cfg, 600), (unsigned char) s.draw (4), (unsigned char) s.draw (4) });
          c.note ("[%s]", st.cfg.str().c_str());
          w.push_back (st);
        }
      c.note ("; ");
    }
  c.label (n_threads > 8 ? "9..64 threads" : fmt ("%u threads", n_threads));
  std::atomic<unsigned> ready { 0 };
  vector<std::thread> threads;
  // some objects are handed over to this thread when the others have ended
  const unsigned handover = s.draw (4);
  vector<vector<std::unique_ptr<RS>>> kept (n_threads);
  for (unsigned t = 0; t < n_threads; t++)
    threads.emplace_back ([&ready, &w = work[t], &kept = kept[t], n_threads, handover] {
      Bench b;
      b.check_surroundings = false;
      ready++;
      while (ready < n_threads)
        std::this_thread::yield();
      for (auto& st : w)
        {
          std::unique_ptr<RS> rp (new RS (st.cfg));
          RS& r = *rp;
          bool moved = false;
          for (size_t o = 0; o + (handover ? 1 : 0) < st.ops.size(); o++)
            {
              const Op& op = st.ops[o];
              feed (st, r, b, op);
              (void) r.delay();
              if (!moved)
                {
                  void *q = A->move_new (r.p);
                  A->destroy (r.p);
                  r.p = q;
                  moved = true;
                }
            }
          (void) A->find_precision (st.seed & 31);
          (void) A->precision_name (st.cfg.prec);
          if (handover)
            kept.push_back (std::move (rp));
        }
    });
  for (auto& t : threads)
    t.join();
  if (handover)
    for (unsigned t = 0; t < n_threads; t++)
      for (size_t k = 0; k < work[t].size(); k++)
        {
          feed (work[t][k], *kept[t][k], bench(), work[t][k].ops.back());
          kept[t][k].reset();
        }
  int with_output = 0;
  for (auto& w : work)
    {
      bool out = false;
      for (auto& st : w)
        {
          out |= st.y.size() > 0;
          check_equal_bits ("threads", st.cfg.str() + ": stream with other threads and alone", st.y, alone (st));
        }
      with_output += out;
    }
  c.nontrivial (with_output >= 2);
}

PROPERTY (c10_crowd, "a case is 2..5000 instances of 1..3 drawn configurations which live at the same time; each gets its own stream, in 2..4 rounds of one or two calls in drawn order, some are reset or replaced in between; every stream is compared bit for bit with the same calls made on a new object alone; non-trivial: at least 30 streams with output")
{
  CfgFilter f;
  vector<Cfg> cfgs;
  const unsigned n_cfgs = 1 + s.draw (3);
  for (unsigned i = 0; i < n_cfgs; i++)
    cfgs.push_back (gen_cfg (s, f));
  for (auto& cfg : cfgs)
    c.note ("%s; ", cfg.str().c_str());
  const unsigned k = s.draw (12);
  const unsigned n = std::min<unsigned> (2 + (1u << k) + s.draw (1u << k), 5000);
  const unsigned max_len = 1 + s.draw (40);
  const unsigned rounds = 2 + s.draw (3);
  const unsigned order = s.draw (3); // of construction, reversed, random
  const bool resets = s.draw (2), replace = s.draw (2);
  Rng rng (s.draw (1u << 30));
  c.note ("%u instances, %u rounds, blocks of up to %u, order %u%s%s", n, rounds, max_len, order, resets ? ", resets" : "", replace ? ", replaced" : "");
  struct Member
  {
    Stream st;
    std::unique_ptr<RS> r;
  };
  vector<Member> crowd (n);
  vector<Stream> done;
  auto create = [&] (Member& m) {
    m.r.reset();
    m.st = Stream();
    m.st.cfg = cfgs[rng.below (cfgs.size())];
    m.st.seed = rng.below (1u << 30);
    m.r.reset (new RS (m.st.cfg));
  };
  for (auto& m : crowd)
    create (m);
  vector<unsigned> turn (n);
  for (unsigned i = 0; i < n; i++)
    turn[i] = order == 1 ? n - 1 - i : i;
  for (unsigned round = 0; round < rounds; round++)
    {
      if (order == 2)
        for (unsigned i = n - 1; i > 0; i--)
          std::swap (turn[i], turn[rng.below (i + 1)]);
      for (auto t : turn)
        {
          Member& m = crowd[t];
          if (replace && round && rng.below (8) == 0)
            {
              done.push_back (m.st);
              create (m);
            }
          for (unsigned calls = 1 + rng.below (2); calls; calls--)
            {
              Op op = { resets && rng.below (8) == 0, unsigned (1 + rng.below (max_len)) * (m.st.cfg.up() ? 1 : m.st.cfg.ratio), (unsigned char) rng.below (4), (unsigned char) rng.below (4) };
              m.st.ops.push_back (op);
              feed (m.st, *m.r, bench(), op);
            }
        }
    }
  int with_output = 0;
  for (auto& m : crowd)
    {
      m.r.reset();
      done.push_back (std::move (m.st));
    }
  for (auto& st : done)
    {
      with_output += st.y.size() > 0;
      check_equal_bits ("crowd", st.cfg.str() + ": stream among other instances and alone", st.y, alone (st));
    }
  c.label (fmt ("2^%u instances", k));
  c.nontrivial (with_output >= 30);
}
