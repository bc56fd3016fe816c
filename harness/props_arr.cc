// C14: AlignedArray against std::vector
#include "util.hh"
#include "pandaresampler.hh"
#include <set>
#include <type_traits>
using std::vector;
using std::string;
using namespace pbt;
using PandaResampler::AlignedArray;

namespace {
// element type which knows where its objects are
struct Tracked
{
  static std::set<const void *> live;
  static vector<const void *> destroyed;
  static string error;
  int v;
  Tracked() : v (0) { born(); }
  Tracked (int i) : v (i) { born(); }
  Tracked (const Tracked& o) : v (o.v) { o.check ("copy of"); born(); }
  Tracked& operator= (const Tracked& o) { check ("assignment to"); o.check ("assignment from"); v = o.v; return *this; }
  ~Tracked()
  {
    if (!live.erase (this))
      error = "destructor of an object which does not exist";
    destroyed.push_back (this);
    v = -999;
  }
  bool operator== (const Tracked& o) const { check ("comparison of"); return v == o.v; }
private:
  void
  born()
  {
    if (!live.insert (this).second)
      error = "constructor on top of an existing object";
  }
  void
  check (const char *what) const
  {
    if (!live.count (this))
      error = string (what) + " an object which does not exist";
  }
};
std::set<const void *> Tracked::live;
vector<const void *> Tracked::destroyed;
string Tracked::error;

struct Big { double d[25]; char c; bool operator== (const Big& o) const { return d[0] == o.d[0] && d[24] == o.d[24] && c == o.c; } };
struct alignas (64) Line { float f; bool operator== (const Line& o) const { return f == o.f; } };

template<class T> T make (uint64_t k);
template<> float make (uint64_t k) { return (int) (k % 2001) - 1000; }
template<> double make (uint64_t k) { return k * 0.25; }
template<> unsigned char make (uint64_t k) { return k; }
template<> string make (uint64_t k) { return string (k % 60, 'a' + k % 26); }
template<> Tracked make (uint64_t k) { return Tracked (k % 1000 + 1); }
template<> Big make (uint64_t k) { Big b {}; b.d[0] = k; b.d[24] = -1.0 * k; b.c = k; return b; }
template<> Line make (uint64_t k) { Line l; l.f = k % 100000; return l; }

template<class T> void
run_arrays (Src& s, Ctx& c, const char *type)
{
  typedef AlignedArray<T> Array;
  struct Slot { Array *a = nullptr; vector<T> model; };
  Tracked::live.clear();
  Tracked::destroyed.clear();
  Tracked::error.clear();
  const bool tracked = std::is_same<T, Tracked>::value;
  bool nt = false;
  c.note ("AlignedArray<%s>: ", type);
  c.label (type);
  alloc_fill (s.draw (2) ? 0xa5 : 0xff);
  AllocStats before = alloc_stats();
  (void) before;
  {
    vector<Slot> slots (1 + s.draw (4));
    auto gen_n = [&] () -> size_t { return s.weighted ({ 5, 2, 1 }) == 0 ? s.draw (20) : s.chance (1, 4) ? s.draw (5000) : s.draw (200); };
    auto check = [&] (size_t k, const char *when) {
      Slot& t = slots[k];
      Array& a = *t.a;
      const Array& ca = a;
      const size_t n = t.model.size();
      if (a.size() != n)
        fail ("array-size", "%s: size() is %zu, expected %zu", when, a.size(), n);
      if (size_t (a.end() - a.begin()) != n)
        fail ("array-iteration", "%s: begin() and end() span %zd elements of %zu", when, ptrdiff_t (a.end() - a.begin()), n);
      if ((uintptr_t) a.begin() % 64)
        fail ("array-alignment", "%s: %zu elements at %p", when, n, (void *) a.begin());
      for (size_t i = 0; i < n; i++)
        {
          if (&a[i] != a.begin() + i || &ca[i] != a.begin() + i)
            fail ("array-index", "%s: element %zu of %zu is not at begin() + %zu", when, i, n, i);
          if (!(ca[i] == t.model[i]))
            fail ("array-value", "%s: element %zu of %zu differs", when, i, n);
        }
      size_t cnt = 0;
      for (auto& v : a)
        cnt += &v == &a[cnt];
      if (cnt != n)
        fail ("array-iteration", "%s: iteration visits %zu of %zu elements", when, cnt, n);
      const char *start;
      size_t size;
      if (n && alloc_hook_active() && alloc_find (a.begin(), start, size))
        {
          uintptr_t end = ((uintptr_t) a.end() + 63) / 64 * 64;
          if (end > (uintptr_t) start + size)
            fail ("array-sharing", "%s: the last cache line of %zu elements is shared with other memory", when, n);
          c.label ("cache lines checked");
        }
      for (size_t j = 0; j < slots.size(); j++)
        if (j != k && slots[j].a && n && slots[j].model.size() && (uintptr_t) slots[j].a->begin() / 64 <= ((uintptr_t) a.end() - 1) / 64 && (uintptr_t) a.begin() / 64 <= ((uintptr_t) slots[j].a->end() - 1) / 64)
          fail ("array-sharing", "%s: two arrays share memory", when);
      if (tracked && Tracked::error.size())
        fail ("array-lifetime", "%s: %s", when, Tracked::error.c_str());
    };
    auto destroy = [&] (size_t k) {
      Slot& t = slots[k];
      const T *b = t.a->begin();
      const size_t n = t.model.size();
      Tracked::destroyed.clear();
      delete t.a;
      t.a = nullptr;
      if (tracked)
        {
          if (Tracked::error.size())
            fail ("array-lifetime", "destruction: %s", Tracked::error.c_str());
          if (Tracked::destroyed.size() != n)
            fail ("array-lifetime", "destruction of %zu elements destroyed %zu objects", n, Tracked::destroyed.size());
          for (size_t i = 0; i < n; i++)
            if (Tracked::destroyed[i] != (const void *) (b + (n - 1 - i)))
              fail ("array-order", "destruction of %zu elements is not in reverse order", n);
        }
      t.model.clear();
    };
    const unsigned n_ops = 2 + s.draw (40);
    for (unsigned op = 0; op < n_ops; op++)
      {
        const size_t k = s.draw (slots.size());
        Slot& t = slots[k];
        if (!t.a)
          {
            size_t other = s.draw (slots.size());
            switch (s.draw (3))
              {
              case 0:
                {
                  size_t n = gen_n();
                  c.note ("%zu=(%zu) ", k, n);
                  t.a = new Array (n);
                  t.model = vector<T> (n);
                  check (k, "construction");
                }
                break;
              case 1:
                {
                  size_t n = gen_n(), seed = s.draw (100000);
                  c.note ("%zu=vector(%zu) ", k, n);
                  vector<T> v;
                  for (size_t i = 0; i < n; i++)
                    v.push_back (make<T> (mix64 (seed + i)));
                  t.a = new Array (v);
                  t.model = v;
                  if (n)
                    v[0] = make<T> (7);  // the source is independent
                  check (k, "construction from vector");
                  nt |= n > 0;
                }
                break;
              case 2:
                if (slots[other].a)
                  {
                    c.note ("%zu=copy(%zu) ", k, other);
                    t.a = new Array (*slots[other].a);
                    t.model = slots[other].model;
                    check (k, "copy construction");
                    check (other, "source of a copy");
                    nt |= t.model.size() > 0;
                  }
                break;
              }
            continue;
          }
        switch (s.weighted ({ 4, 3, 2, 2, 2 }))
          {
          case 0:
            if (t.model.size())
              {
                size_t i = s.draw (t.model.size());
                T v = make<T> (s.draw (100000));
                c.note ("%zu[%zu]= ", k, i);
                if (s.chance (1, 2))
                  (*t.a)[i] = v;
                else
                  *(t.a->begin() + i) = v;
                t.model[i] = v;
                nt = true;
                check (k, "element assignment");
              }
            break;
          case 1:
            {
              size_t other = s.draw (slots.size());
              if (slots[other].a)
                {
                  c.note ("%zu=%zu ", k, other);
                  const Array& src = *slots[other].a;
                  Array& r = *t.a = src;
                  if (&r != t.a)
                    fail ("array-assign", "assignment does not return the array");
                  t.model = vector<T> (slots[other].model);
                  check (k, "assignment");
                  check (other, "source of an assignment");
                  nt |= t.model.size() > 0;
                }
            }
            break;
          case 2:
            {
              size_t n = gen_n();
              c.note ("%zu=temporary(%zu) ", k, n);
              *t.a = Array (n);
              t.model = vector<T> (n);
              check (k, "assignment of a temporary");
            }
            break;
          case 3:
            c.note ("delete %zu ", k);
            destroy (k);
            break;
          case 4:
            for (size_t i = 0; i < slots.size(); i++)
              if (slots[i].a)
                check (i, "check of all arrays");
            break;
          }
      }
    for (size_t i = 0; i < slots.size(); i++)
      if (slots[i].a)
        {
          check (i, "final check");
          destroy (i);
        }
  }
  alloc_fill (-1);
  if (tracked && Tracked::live.size())
    fail ("array-lifetime", "%zu objects were never destroyed", Tracked::live.size());
  Tracked::destroyed.clear();
  Tracked::destroyed.shrink_to_fit();
  c.nontrivial (nt);
}

// memory leaks: only the calls of AlignedArray are between the counters
template<class T> void
run_leak (Src& s, Ctx& c, const char *type)
{
  size_t n = s.draw (300), m = s.draw (300);
  unsigned rounds = 1 + s.draw (4);
  c.note ("AlignedArray<%s> %zu %zu rounds %u", type, n, m, rounds);
  vector<T> v (m);
  AllocStats a = alloc_stats();
  for (unsigned r = 0; r < rounds; r++)
    {
      AlignedArray<T> x (n), y (v), z (x);
      z = y;
      x = z;
      y = x;
      AlignedArray<T> w (z);
      w = AlignedArray<T> (n);
      z = *&z;
    }
  AllocStats b = alloc_stats();
  if (b.allocs - a.allocs != b.frees - a.frees || a.bytes != b.bytes)
    fail ("array-leak", "AlignedArray<%s>: %ld blocks are left", type, (b.allocs - a.allocs) - (b.frees - a.frees));
  c.nontrivial (n + m > 0);
}
}

PROPERTY (c14_model, "a case is an element type (float, double, byte, string, 208 byte struct, 64-byte aligned struct, object tracking its lifetime) and up to 41 operations (construction, copies, assignments, element writes, destruction) on up to 4 arrays, compared with std::vector after each one; non-trivial: an element was written or copied")
{
  switch (s.stratum (7))
    {
    case 0: return run_arrays<Tracked> (s, c, "tracked");
    case 1: return run_arrays<float> (s, c, "float");
    case 2: return run_arrays<double> (s, c, "double");
    case 3: return run_arrays<unsigned char> (s, c, "byte");
    case 4: return run_arrays<string> (s, c, "string");
    case 5: return run_arrays<Big> (s, c, "struct");
    case 6: return run_arrays<Line> (s, c, "aligned struct");
    }
}
PROPERTY (c14_leak, "a case is an element type and two sizes; allocations and frees of a fixed program of constructions, copies, assignments (including to itself) and destructions are counted; non-trivial: not both sizes are 0")
{
  switch (s.stratum (4))
    {
    case 0: return run_leak<float> (s, c, "float");
    case 1: return run_leak<string> (s, c, "string");
    case 2: return run_leak<Big> (s, c, "struct");
    case 3: return run_leak<unsigned char> (s, c, "byte");
    }
}

// ---- arrays whose size or number of elements does not fit into 16, 24, 31 or 32 bits
namespace {
template<class T> void
run_large (Src& s, Ctx& c, const char *type, int max_bits)
{
  static const int bits[] = { 16, 24, 31, 32 };
  int n_bits = 0;
  while (n_bits < 4 && bits[n_bits] <= max_bits)
    n_bits++;
  int e = max_bits > 24 ? 2 + s.stratum (2) : s.draw (n_bits);
  const bool by_elements = s.draw (2) && (sizeof (T) == 1 || (size_t (sizeof (T)) << bits[e]) <= (1u << 26));
  size_t n = (size_t (1) << bits[e]) / (by_elements ? 1 : sizeof (T));
  n = s.draw (4) ? n + s.draw (70) : n - s.draw (70);
  if (s.chance (1, 4) && bits[e] <= 24)
    n += s.draw (n);
  const int how = s.draw (bits[e] <= 24 ? 4 : 2);
  c.note ("AlignedArray<%s> of %zu elements, way %d", type, n, how);
  c.label (fmt ("2^%d %s", bits[e], by_elements ? "elements" : "bytes"));
  // positions of interest: first, last, around powers of two, random
  vector<size_t> at = { 0, 1, n - 1, n - 2, n / 2 };
  for (int b = 4; b < 34; b++)
    for (int d = -1; d <= 1; d++)
      for (size_t p : { (size_t (1) << b) + d, (size_t (1) << b) / sizeof (T) + d })
        if (p < n)
          at.push_back (p);
  for (int i = 0; i < 200; i++)
    at.push_back (s.draw (n));
  std::sort (at.begin(), at.end());
  at.erase (std::unique (at.begin(), at.end()), at.end());
  const int fill = bits[e] <= 24 && s.draw (2) ? 0xa5 : -1;
  const size_t old_size = s.draw (3);
  if (void *p = bits[e] > 24 ? malloc (n * sizeof (T) * (how == 1 ? 2 : 1) + 100000) : nullptr)
    free (p);
  else if (bits[e] > 24)
    {
      c.label ("not enough memory");
      return;
    }
  const AllocStats before = alloc_stats();
  {
    typedef AlignedArray<T> Array;
    auto mark = [&] (size_t p) { return make<T> (mix64 (p) | 1); };
    auto verify = [&] (Array& a, bool zero, const char *when) {
      const Array& ca = a;
      if (a.size() != n || size_t (a.end() - a.begin()) != n || (uintptr_t) a.begin() % 64)
        fail ("array-size", "%s: size %zu, span %zu at %p for %zu elements", when, a.size(), size_t (a.end() - a.begin()), (void *) a.begin(), n);
      for (size_t p : at)
        if (&a[p] != a.begin() + p || &ca[p] != a.begin() + p || !(ca[p] == (zero ? T() : mark (p))))
          fail ("array-value", "%s: element %zu of %zu", when, p, n);
    };
    // whether nothing but the marks is set
    auto verify_all = [&] (Array& a, const char *when) {
      const T z = T();
      size_t k = 0, i = 0;
      for (auto& v : a)
        {
          if (k < at.size() && at[k] == i)
            k++;
          else if (!(v == z))
            fail ("array-value", "%s: element %zu of %zu is not 0", when, i, n);
          i++;
        }
      if (i != n)
        fail ("array-iteration", "%s: iteration visits %zu of %zu elements", when, i, n);
    };
    alloc_fill (fill);
    std::unique_ptr<Array> a;
    if (how == 1)
      {
        vector<T> v (n);
        for (size_t p : at)
          v[p] = mark (p);
        a.reset (new Array (v));
        verify (*a, false, "construction from a vector");
      }
    else
      {
        a.reset (new Array (n));
        verify (*a, true, "construction");
        verify_all (*a, "construction");
        for (size_t p : at)
          (*a)[p] = mark (p);
        verify (*a, false, "after writing");
      }
    verify_all (*a, "after writing");
    if (how == 2)
      {
        Array b (*a);
        (*a)[n - 1] = T();
        (*a)[0] = T();
        verify (b, false, "copy");
        verify_all (b, "copy");
      }
    if (how == 3)
      {
        Array b (old_size);
        b = *a;
        *a = Array (1);
        verify (b, false, "assignment");
        verify_all (b, "assignment");
      }
  }
  alloc_fill (-1);
  AllocStats after = alloc_stats();
  if (after.allocs - before.allocs != after.frees - before.frees || after.bytes != before.bytes)
    fail ("array-leak", "%ld blocks are left", (after.allocs - before.allocs) - (after.frees - before.frees));
  c.nontrivial();
}
}

PROPERTY (c14_large, "a case is an array of about 2^16 or 2^24 elements or bytes, constructed, filled at 200 to 500 positions (first, last, around powers of two, random), copied or assigned; all elements are checked; non-trivial: always")
{
  switch (s.draw (3))
    {
    case 0: return run_large<float> (s, c, "float", 24);
    case 1: return run_large<unsigned char> (s, c, "byte", 24);
    case 2: return run_large<Line> (s, c, "aligned struct", 24);
    }
}
PROPERTY (c14_giant, "a case is an array of about 2^31 or 2^32 bytes, constructed or made from a vector, filled at 200 to 500 positions (first, last, around powers of two, random); all elements are checked; non-trivial: always")
{
  if (s.stratum (4) & 2)
    return run_large<float> (s, c, "float", 32);
  return run_large<unsigned char> (s, c, "byte", 32);
}
