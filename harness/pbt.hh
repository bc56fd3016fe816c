// A small property-based testing engine.
//
// A property is a function void (Src&, Ctx&) which draws everything it needs from Src and throws pbt::Fail
// when the property is broken. Src records the sequence of choices, so that a case is a list of integers:
//  - RNG mode:    choices come from a generator seeded with (seed, property, case index)
//  - REPLAY mode: choices come from a list (shrinking and replay files)
//  - BYTES mode:  choices are decoded from a byte string (libFuzzer), whose first byte seeds the choices after its end
// Smaller choices mean simpler cases; shrinking edits the list and re-runs the property in a forked child, so
// crashes (sanitizer reports, assertions, segmentation faults) shrink like ordinary failures.
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>

namespace pbt {

struct Fail { std::string kind, msg; };

[[noreturn]] void fail (const char *kind, const char *fmt, ...) __attribute__ ((format (printf, 2, 3)));
std::string fmt (const char *f, ...) __attribute__ ((format (printf, 1, 2)));

uint64_t mix64 (uint64_t x);

struct Rng // splitmix64; also used to expand drawn seeds into signals
{
  uint64_t s;
  explicit Rng (uint64_t seed) : s (seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64 (s); }
  uint64_t below (uint64_t n) { return n <= 1 ? 0 : next() % n; }
  double unit() { return (next() >> 11) * 0x1p-53; }          // [0,1)
  double sym()  { return unit() * 2 - 1; }                    // [-1,1)
};

class Src
{
public:
  enum Mode { RNG, REPLAY, BYTES };
  Mode mode = RNG;
  Rng rng { 0 };
  uint64_t case_index = 0, stratum_seed = 0;
  const uint64_t *list = nullptr;
  size_t list_len = 0, list_pos = 0;
  const uint8_t *bytes = nullptr;
  size_t bytes_len = 0, bytes_pos = 0;
  uint64_t tail_seed = 0;                      // choices after the end of the bytes: random if not zero, or else all zero

  std::vector<uint64_t> rec;

  uint64_t draw (uint64_t n);                  // 0 .. n-1
  uint64_t stratum (uint64_t n);               // like draw(n), but visits all values evenly in RNG mode
  int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) draw (hi - lo + 1); }
  bool chance (unsigned num, unsigned den) { return draw (den) >= den - num; }
  unsigned weighted (std::initializer_list<unsigned> w); // index; first is simplest
  template<class T> const T& pick (const std::vector<T>& v) { return v[draw (v.size())]; }
  double unit() { return draw (1u << 24) * (1.0 / (1u << 24)); }
private:
  void record (uint64_t v);
};

class Ctx
{
public:
  bool is_nontrivial = false;
  bool want_desc = false;
  int  effort = 1;                             // property specific size multiplier; 0: coverage guided fuzzing of small cases
  bool fuzzing() const { return effort == 0; }
  std::string desc;
  std::vector<std::string> labels;
  void nontrivial (bool b = true) { is_nontrivial = b; }
  void label (const std::string& s) { labels.push_back (s); }
  void note (const char *f, ...) __attribute__ ((format (printf, 2, 3)));
};

typedef void (*PropFn) (Src&, Ctx&);

struct Prop { const char *name; PropFn fn; const char *rule; };

std::vector<Prop>& registry();
struct Register { Register (const char *n, PropFn f, const char *rule) { registry().push_back ({ n, f, rule }); } };
#define PROPERTY(name, rule) \
  static void prop_##name (pbt::Src& s, pbt::Ctx& c); \
  static pbt::Register reg_##name (#name, prop_##name, rule); \
  static void prop_##name (pbt::Src& s, pbt::Ctx& c)

int main (int argc, char **argv);

}
